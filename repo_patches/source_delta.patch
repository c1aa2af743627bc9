From 316400900146292d3e25fb1f2c688107176fb23d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:07 +0000
Subject: [PATCH 01/25] fix: do not delete the only SRR copy when the final
 rename of remove_stored_files fails

---
 rescene/main.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rescene/main.py b/rescene/main.py
index ecb05fd..75fe3b5 100644
--- a/rescene/main.py
+++ b/rescene/main.py
@@ -369,11 +369,13 @@ def remove_stored_files(srr_file, store_files):
 				tmpfile.write(block.block_bytes())
 		tmpfile.close()
 		os.remove(srr_file)
-		os.rename(tmpname, srr_file)
 	except BaseException as ex:
 		print(ex)
+		tmpfile.close()
 		os.unlink(tmpname)
 		raise
+	# the original is gone: the temp file must not be deleted anymore
+	os.rename(tmpname, srr_file)
 
 def rename_stored_file(srr_file, stored_name, new_name):
 	"""Changes the stored file name and the path. 
-- 
2.43.0


From 77e4326ca58c181b09ae866d11071eeb39ab6d90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:07 +0000
Subject: [PATCH 02/25] fix: clean up the temporary file when renaming a stored
 file fails

---
 rescene/rar.py | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/rescene/rar.py b/rescene/rar.py
index e4136b2..0f1d973 100644
--- a/rescene/rar.py
+++ b/rescene/rar.py
@@ -669,14 +669,19 @@ class SrrStoredFileBlock(_SrrFileNameBlock):
 		                                  dir=os.path.dirname(self.fname))
 		tmpfile = os.fdopen(tmpfd, "wb")
 		
-		with open(self.fname, "rb") as f:
-			tmpfile.write(f.read(self.block_position)) # previous block data
-			tmpfile.write(self.block_bytes()) # new block header
-			f.seek(old_file_offset) # go to beginning stored file
-			tmpfile.write(f.read()) # read all data until EOF
-			
-		tmpfile.close() 
-		os.remove(self.fname)
+		try:
+			with open(self.fname, "rb") as f:
+				tmpfile.write(f.read(self.block_position)) # previous block data
+				tmpfile.write(self.block_bytes()) # new block header
+				f.seek(old_file_offset) # go to beginning stored file
+				tmpfile.write(f.read()) # read all data until EOF
+				
+			tmpfile.close() 
+			os.remove(self.fname)
+		except:
+			tmpfile.close()
+			os.unlink(tmpname)
+			raise
 		os.rename(tmpname, self.fname)
 
 	def explain(self):
-- 
2.43.0


From e58a1f5dfc194adbc27076fdb89b921390315e5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:07 +0000
Subject: [PATCH 03/25] fix: clean up the temporary file when add_stored_files
 cannot replace the SRR

---
 rescene/main.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rescene/main.py b/rescene/main.py
index 75fe3b5..bad772d 100644
--- a/rescene/main.py
+++ b/rescene/main.py
@@ -325,19 +325,19 @@ def add_stored_files(srr_file, store_files, in_folder="", save_paths=False,
 			else: #TODO: make it nicer
 				for f in store_files:
 					_store_fh(f, tmpfile)	
+		tmpfile.close()
+		os.remove(srr_file)
 	except:
 		tmpfile.close()
 		os.unlink(tmpname)
 		raise
 	else:
-		tmpfile.close()
 #		if not location:
 #			# Bad SRR file or RAR file given.
 #			os.remove(tmpname)
 #			raise NotSrrFile("No SrrRarFile blocks detected. -> Not SRR. "
 #							 "Zero files added.")
 		# original srr file is replaced by the temp file
-		os.remove(srr_file)
 		os.rename(tmpname, srr_file)
 
 def remove_stored_files(srr_file, store_files):
-- 
2.43.0


From f1e419faa0857efb1ec370a9e9e5a1e2f1a8a563 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:07 +0000
Subject: [PATCH 04/25] fix: do not hide write errors while storing an opened
 file

---
 rescene/main.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/rescene/main.py b/rescene/main.py
index bad772d..657faad 100644
--- a/rescene/main.py
+++ b/rescene/main.py
@@ -1608,11 +1608,13 @@ def _store_fh(open_file, stream):
 		data = open_file.read()
 		block = SrrStoredFileBlock(file_name=open_file.name, 
 								   file_size=open_file.file_size())
-		stream.write(block.block_bytes())
-		stream.write(data)
 	except Exception as ex:
 		# reading data fails, so just skip the file
 		print(ex)
+	else:
+		# a write failure must not result in a broken SRR file
+		stream.write(block.block_bytes())
+		stream.write(data)
 
 def _search(files, folder=""):
 	"""Enumerates all files to store. Yields a generator.
-- 
2.43.0


From 77f14438008ad8e500c365c56fd422005f0e055a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:38 +0000
Subject: [PATCH 05/25] fix: remove the broken SRR file when creating it fails
 for any reason

---
 rescene/main.py | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/rescene/main.py b/rescene/main.py
index 657faad..c71d5ea 100644
--- a/rescene/main.py
+++ b/rescene/main.py
@@ -492,9 +492,9 @@ def create_srr(srr_name, infiles, in_folder="",
 			raise
 	
 	srr = open(tmp_srr_name, "wb")
-	srr.write(SrrHeaderBlock(appname=rescene.APPNAME).block_bytes())
 	
 	try:
+		srr.write(SrrHeaderBlock(appname=rescene.APPNAME).block_bytes())
 		# STORE FILES
 		# We store copies of any files included in the store_files list 
 		# in the .srr using a "store block".
@@ -582,7 +582,15 @@ def create_srr(srr_name, infiles, in_folder="",
 					srr.write(block.block_bytes())	
 				except (ValueError, AttributeError):
 					pass # file is too small or compressed RARs
+		srr.close()
 		return True
+	except:
+		try:
+			srr.close()
+		finally:
+			if os.path.isfile(tmp_srr_name):
+				os.unlink(tmp_srr_name) # remove SRR as it is broken
+		raise
 	finally:
 		# when an IOError is raised, we close the file for further cleanup
 		srr.close()
@@ -612,9 +620,9 @@ def create_srr_single_volume(srr_name, infile, tmp_srr_name=None):
 			raise
 	
 	srr = open(tmp_srr_name, "wb")
-	srr.write(SrrHeaderBlock(appname=rescene.APPNAME).block_bytes())
 	
 	try:
+		srr.write(SrrHeaderBlock(appname=rescene.APPNAME).block_bytes())
 		# STORE ARCHIVE BLOCKS
 		if not os.path.isfile(infile):
 			# TODO: case sensitivity on Unix systems
@@ -636,7 +644,15 @@ def create_srr_single_volume(srr_name, infile, tmp_srr_name=None):
 			# store the raw data for any blocks found
 			srr.write(block.block_bytes())
 				
+		srr.close()
 		return True
+	except:
+		try:
+			srr.close()
+		finally:
+			if os.path.isfile(tmp_srr_name):
+				os.unlink(tmp_srr_name) # remove SRR as it is broken
+		raise
 	finally:
 		# when an IOError is raised, we close the file for further cleanup
 		srr.close()
-- 
2.43.0


From 066e11c0d8cf3d9094a0af36542257920f28af98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:38 +0000
Subject: [PATCH 06/25] fix: do not delete an existing SRR file when creating
 the new one fails

---
 rescene/srr.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/rescene/srr.py b/rescene/srr.py
index f759ef6..e579df0 100644
--- a/rescene/srr.py
+++ b/rescene/srr.py
@@ -385,9 +385,10 @@ def create_srr(options, infolder, infiles, working_dir):
 		# EmptySfv: can't create a useful file in this case
 		# FileNotFound: Linux file systems are case sensitive
 
-		# make sure there is no broken SRR file/temporary file left
+		# make sure there is no broken temporary file left
+		# (an already existing SRR file must not be touched)
 		try:
-			os.unlink(srr_name)
+			os.unlink(tmp_srr_name)
 		except:
 			pass
 		mthread.done = True
-- 
2.43.0


From ac664316c52872de7cfee3211e8ff6ad548ee14d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:38 +0000
Subject: [PATCH 07/25] fix: KeyboardInterrupt has no message attribute on
 Python 3

---
 bin/pyrescene.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bin/pyrescene.py b/bin/pyrescene.py
index 0ccdae5..6fbaa26 100644
--- a/bin/pyrescene.py
+++ b/bin/pyrescene.py
@@ -904,7 +904,7 @@ def generate_srr(reldir, working_dir, options, mthread):
 			return False
 		except KeyboardInterrupt as e:
 			# always deletes the temp file here
-			if e.message != "DONT_DELETE":
+			if str(e) != "DONT_DELETE" and os.path.isfile(tmp_srr_name):
 				os.unlink(tmp_srr_name)
 			raise
 		except FileNotFound as e:
-- 
2.43.0


From a5e79515bf391991c936180f376f694f7424f8f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:38 +0000
Subject: [PATCH 08/25] fix: keep the result file when it cannot be renamed and
 the destination is gone

---
 rescene/utility.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/rescene/utility.py b/rescene/utility.py
index a3ee11c..3d71e08 100644
--- a/rescene/utility.py
+++ b/rescene/utility.py
@@ -510,8 +510,9 @@ def replace_result(src, dest):
 			if _DEBUG:
 				print("  Source: {0}".format(src))
 				print("  Destination: {0}".format(dest))
-			print("This one lost... deleting temp file.")
-			os.unlink(src)
+			if os.path.isfile(dest):
+				print("This one lost... deleting temp file.")
+				os.unlink(src)
 			raise
 
 def calculate_crc32(file_name):
-- 
2.43.0


From 7563c08bbf913e01c3d202e42881fef1a85b9922 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:27 +0000
Subject: [PATCH 09/25] fix: a failed sample rebuild must not delete an
 existing file with the same name

---
 resample/srs.py | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/resample/srs.py b/resample/srs.py
index a43d0b7..2866582 100644
--- a/resample/srs.py
+++ b/resample/srs.py
@@ -609,18 +609,14 @@ def main(argv=None, no_exit=False):
 							replace_result(out_file, result_file)
 				else:
 					# delete reconstruction failure
-					if not is_music:
-						replace_result(out_file, result_file)
-						os.unlink(result_file)
-					elif is_music:
+					# an already existing file must survive a failed attempt
+					os.unlink(out_file)
+					if is_music:
 						m = os.path.normpath(os.path.realpath(movie))
 						r = os.path.normpath(os.path.realpath(result_file))
 						if m == r:
 							# always keep original track on retag failure!
 							print("Music track not deleted!")
-						else:
-							replace_result(out_file, result_file)
-							os.unlink(result_file)
 
 				msg = "\nRebuild failed for sample: %s\n" % srs_data.name
 				pexit(5, msg, False)
-- 
2.43.0


From f951676bfd3e145784c9196a544b6c73d4b3654c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:27 +0000
Subject: [PATCH 10/25] fix: exit() does not accept an error message argument

---
 resample/srs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resample/srs.py b/resample/srs.py
index 2866582..7cccd50 100644
--- a/resample/srs.py
+++ b/resample/srs.py
@@ -646,7 +646,7 @@ def main(argv=None, no_exit=False):
 		if fault.endswith("Aborting"):
 			pexit(2, "Corruption detected: %s\n" % fault)
 		else:
-			exit(2, "Corruption detected: %s. Aborting.\n" % fault)
+			pexit(2, "Corruption detected: %s. Aborting.\n" % fault)
 	except fpcalc.ExecutableNotFound as err:
 		pexit(3, str(err))
 	except AttributeError as err:
-- 
2.43.0


From eb5bdc30f0f530efda68543a97b5fbccfdfe0aec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:27 +0000
Subject: [PATCH 11/25] fix: do not let the sample name of an SRS file escape
 the output folder

---
 resample/srs.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/resample/srs.py b/resample/srs.py
index 7cccd50..ca44abe 100644
--- a/resample/srs.py
+++ b/resample/srs.py
@@ -492,7 +492,9 @@ def main(argv=None, no_exit=False):
 					pexit(4, msg, False)
 
 			# 5) Ask user for overwrite permission
-			result_file = os.path.join(out_folder, srs_data.name)
+			# the name stored in the SRS can't select an other folder
+			result_file = os.path.join(out_folder,
+			                           os.path.basename(srs_data.name))
 			if not can_overwrite(result_file, options.always_yes):
 				pexit(1, "\nOperation aborted.\n", False)
 
-- 
2.43.0


From d18f54501eec8ad1a0b70c559ffb497aa4784f55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:56 +0000
Subject: [PATCH 12/25] fix: remove the broken SRR file when its header can not
 be written

---
 rescene/main.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rescene/main.py b/rescene/main.py
index c71d5ea..7ea7bfd 100644
--- a/rescene/main.py
+++ b/rescene/main.py
@@ -741,12 +741,13 @@ def create_srr_fh(srr_name, infiles, allfiles=None,
 		os.makedirs(spath)
 	
 	srr = open(srr_name, "wb")
-	srr.write(SrrHeaderBlock(appname=rescene.APPNAME).block_bytes())
 	
 	class StatFailure(Exception):
 		"""The file isn't posted completely."""
 
 	try:
+		srr.write(SrrHeaderBlock(appname=rescene.APPNAME).block_bytes())
+
 		# COLLECT ARCHIVES ----------------------------------------------------
 		rarfiles = []
 		for infile in infiles:
-- 
2.43.0


From 46e2dceb079099b37959d1630daf4b0c30068927 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:21 +0000
Subject: [PATCH 13/25] fix: keep the created SRR when it can not be renamed to
 its final name

---
 rescene/srr.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/rescene/srr.py b/rescene/srr.py
index e579df0..7a876ac 100644
--- a/rescene/srr.py
+++ b/rescene/srr.py
@@ -363,6 +363,7 @@ def create_srr(options, infolder, infiles, working_dir):
 # 	print("infiles: %s" % infiles, file=sys.stderr)
 # 	print("infolder: %s" % infolder, file=sys.stderr)
 # 	print("store files: %s" % store_files, file=sys.stderr)
+	success = False
 	try:
 		tmp_srr_name = create_temp_file_name(srr_name)
 		success = rescene.create_srr(srr_name, infiles, infolder,
@@ -387,10 +388,11 @@ def create_srr(options, infolder, infiles, working_dir):
 
 		# make sure there is no broken temporary file left
 		# (an already existing SRR file must not be touched)
-		try:
-			os.unlink(tmp_srr_name)
-		except:
-			pass
+		if not success:
+			try:
+				os.unlink(tmp_srr_name)
+			except:
+				pass
 		mthread.done = True
 		mthread.join()
 		print(err, file=sys.stderr)
-- 
2.43.0


From bdadd50dfa923b99546dbea5093a01c9d6114eac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:55 +0000
Subject: [PATCH 14/25] fix: report failure when there are no RAR executables
 to reconstruct with

---
 rescene/srr.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/rescene/srr.py b/rescene/srr.py
index 7a876ac..58c0397 100644
--- a/rescene/srr.py
+++ b/rescene/srr.py
@@ -312,11 +312,13 @@ def manage_srr(options, in_folder, infiles, working_dir):
 		rar_mt.mt_max = options.mt_max
 
 		try:
-			rescene.reconstruct(infiles[0], in_folder, out_folder, save_paths,
-			                    hints, options.no_auto_crc,
-			                    options.auto_locate, options.fake,
-			                    options.rar_executable_dir, options.temp_dir,
-			                    options.volume is None, options.volume, rar_mt)
+			result = rescene.reconstruct(
+				infiles[0], in_folder, out_folder, save_paths, hints,
+				options.no_auto_crc, options.auto_locate, options.fake,
+				options.rar_executable_dir, options.temp_dir,
+				options.volume is None, options.volume, rar_mt)
+			if result is False:  # no RAR executables found
+				return 1
 		except (FileNotFound, RarNotFound) as err:
 			mthread.done = True
 			mthread.join()
-- 
2.43.0


From e0d1fdd40af7019d9329a9a4dc546e01980ee565 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:11 +0000
Subject: [PATCH 15/25] fix: retag must not report failure when all tracks were
 fixed

---
 bin/retag.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/bin/retag.py b/bin/retag.py
index 94a022b..2d80475 100644
--- a/bin/retag.py
+++ b/bin/retag.py
@@ -102,6 +102,7 @@ def fix_tracks(srr_file, input_dir, output_dir, always_yes=False):
 		"" if failures == 1 else "s",
 		"" if not skips else "%s skip%s." %
 	    	(skips, "" if skips == 1 else "s")))
+	return failures == 0
 
 def fix_tagging(srs, output_dir, input_dir, always_yes):
 	"""Fixes the meta data tags of a music track.
-- 
2.43.0


From df8c399fcc217eb3f269e24b5df094e9605fce14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:11 +0000
Subject: [PATCH 16/25] fix: retag crashed on SRS files of video samples

---
 bin/retag.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/bin/retag.py b/bin/retag.py
index 2d80475..509d454 100644
--- a/bin/retag.py
+++ b/bin/retag.py
@@ -116,8 +116,7 @@ def fix_tagging(srs, output_dir, input_dir, always_yes):
 	except NoTaggingAvailable as not_music:
 		print("")
 		print(str(not_music))
-		os.remove(srs)
-		return False
+		return False  # the caller removes the extracted .srs file
 
 	original_name = srs_info.sample_name
 	print("Fixing %s" % original_name)
-- 
2.43.0


From 1fef52217d741ec909e9fbd857683edce02d3424 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:02 +0000
Subject: [PATCH 17/25] fix: store files outside the base folder without a path
 on Python 3

---
 rescene/main.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rescene/main.py b/rescene/main.py
index 7ea7bfd..6a9bd3b 100644
--- a/rescene/main.py
+++ b/rescene/main.py
@@ -1599,7 +1599,7 @@ def _store(sfile, stream, save_paths, in_folder):
 			else:
 				raise  # if this ever throws another valid error here
 			
-		if file_name[:2] == b"..":
+		if file_name[:2] == os.pardir:
 			# sfile and in_folder don't match
 			# (long/short Windows path or totally different locations)
 			# don't store a path for this file!
-- 
2.43.0


From bbc7203f7d961a0fe56276c136e499461cc3aa7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:46 +0000
Subject: [PATCH 18/25] fix: keep the recovery record data an SRR file still
 has

When the recovery records are not removed from the SRR, the reader skipped
their data. Adding, removing or renaming a stored file then lost it and
left an SRR file that cannot be read, and rebuilt volumes missed it.
---
 rescene/rar.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rescene/rar.py b/rescene/rar.py
index 0f1d973..d688f52 100644
--- a/rescene/rar.py
+++ b/rescene/rar.py
@@ -1579,7 +1579,8 @@ class RarReader(object):
 				self.recovery_blocks_removed = (flags & 
 				              SrrRarFileBlock.RECOVERY_BLOCKS_REMOVED)
 			elif is_recovery and not self.recovery_blocks_removed:
-				self._rarstream.seek(add_size, 1)
+				# keep it: the block is copied on editing and reconstructing
+				block_buffer += self._rarstream.read(add_size)
 			
 		# If there is additional data in the block, decide whether
 		# we want to include it in the RarBlock we return.
-- 
2.43.0


From 255368d62e8b428190d216a97bb24202f8d656cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:46 +0000
Subject: [PATCH 19/25] fix: initialise the attribute that is used for recovery
 records

A recovery record before the first RAR file block of an SRR file raised an
AttributeError: the attribute was initialised under another name.
---
 rescene/rar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rescene/rar.py b/rescene/rar.py
index d688f52..44a4109 100644
--- a/rescene/rar.py
+++ b/rescene/rar.py
@@ -1433,7 +1433,7 @@ class RarReader(object):
 				self._readmode = self.RAR
 			elif block_type == BlockType.SrrHeader: # 0x69
 				self._readmode = self.SRR
-				self.recovery_records_removed = True # init to be sure
+				self.recovery_blocks_removed = True # init to be sure
 			elif enable_sfx: # SFX ?
 				# TODO: make it resceneable
 				# search for RAR marker block offset
-- 
2.43.0


From cb4b859e9bce0b0c4f9a5ff39789bf0b9f4cd4f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:21 +0000
Subject: [PATCH 20/25] fix: flag the large track numbers in SRS track records

---
 resample/main.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/resample/main.py b/resample/main.py
index d6874d5..c8884d8 100644
--- a/resample/main.py
+++ b/resample/main.py
@@ -437,13 +437,15 @@ class TrackData(object):
 		return self.__str__()
 
 	def serialize(self):
+		if self.track_number >= 2 ** 16:
+			self.flags |= self.BIG_TACK_NUMBER
 		big_file = self.flags & self.BIG_FILE
 		data_length = 14 + len(self.signature_bytes) + (8 if big_file else 4)
 
 		buff = io.BytesIO()
 		buff.write(S_SHORT.pack(self.flags))
 
-		if self.track_number >= 2 ** 16:
+		if self.flags & self.BIG_TACK_NUMBER:
 			data_length += 2
 			buff.write(S_LONG.pack(self.track_number))
 		else:
-- 
2.43.0


From b219514fc756dec79edaff4031068d257a06affe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:21 +0000
Subject: [PATCH 21/25] fix: rebuild FLAC samples with ID3 tags on Python 3

---
 resample/main.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resample/main.py b/resample/main.py
index c8884d8..304a290 100644
--- a/resample/main.py
+++ b/resample/main.py
@@ -3771,7 +3771,7 @@ def flac_rebuild_sample(self, srs_data, tracks, attachments, srs, out_file):
 				flac.write(b"fLaC")
 				crc = crc32(b"fLaC", crc)
 				fr.skip_contents()
-			elif (fr.block_type in bytearray(b"stu") and
+			elif (fr.block_type in (ord("s"), ord("t"), ord("u")) and
 					srs_flac_blocks <= 3):
 				srs_flac_blocks += 1
 				fr.skip_contents()
-- 
2.43.0


From d51283818558f8db404d464208490a3d1440672b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:21 +0000
Subject: [PATCH 22/25] fix: read Lyrics3 tags in MP3 and SRS files smaller
 than 5100 bytes

---
 resample/mp3.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/resample/mp3.py b/resample/mp3.py
index c498dcf..1afe76d 100644
--- a/resample/mp3.py
+++ b/resample/mp3.py
@@ -153,13 +153,15 @@ class Mp3Reader(object):
 		if end_meta_data_offset - 9 >= 0:
 			self._mp3_stream.seek(end_meta_data_offset - 9, os.SEEK_SET)
 			if b"LYRICSEND" == self._mp3_stream.read(9):
-				self._mp3_stream.seek(end_meta_data_offset - 5100, os.SEEK_SET)
-				lyrics_data = self._mp3_stream.read(5100)
+				start_search = max(0, end_meta_data_offset - 5100)
+				self._mp3_stream.seek(start_search, os.SEEK_SET)
+				lyrics_data = self._mp3_stream.read(end_meta_data_offset -
+				                                    start_search)
 				index = lyrics_data.find(b"LYRICSBEGIN")
 				if index == -1:
 					raise InvalidDataException(
 							"Unable to find start of LyricsV1 block")
-				start_block = end_meta_data_offset - 5100 + index
+				start_block = start_search + index
 				lyrics3_block = Block(end_meta_data_offset - start_block,
 				                      "LYRICS", start_block)
 				self.blocks.append(lyrics3_block)
-- 
2.43.0


From 2dad1b82ade2d7402aa91a5788cbbf54a7b57773 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:25 +0000
Subject: [PATCH 23/25] fix: rebuild a subset of the volumes from the right
 data

With a part of the volumes wanted (srr -r -m), a file starting in a wanted
volume after a skipped file was read at the offset of the skipped one (its
data came out wrong), a subset not starting at the first volume hit an
assertion, and the last volume gave a false CRC warning.
---
 rescene/main.py | 43 ++++++++++++++++++++++++++++---------------
 1 file changed, 28 insertions(+), 15 deletions(-)

diff --git a/rescene/main.py b/rescene/main.py
index 6a9bd3b..ed8534b 100644
--- a/rescene/main.py
+++ b/rescene/main.py
@@ -1232,9 +1232,8 @@ def reconstruct(srr_file, in_folder, out_folder, extract_paths=True, hints={},
 		RarArguments.mt_settings = rar_mt
 	
 	skip_volume = False # helps to reconstruct a single volume
-	skip_offset = 0
+	source_offset = 0 # of the block data in the packed file
 	partial_reconstruction = srr_part != "" and srr_part is not None
-	partial_set = False
 	
 	global temp_dir
 	temp_dir = tmp_dir
@@ -1278,7 +1277,6 @@ def reconstruct(srr_file, in_folder, out_folder, extract_paths=True, hints={},
 				if (srr_part.endswith("*") and
 				    block.file_name.startswith(srr_part[:-1])):
 					skip_volume = False
-					partial_set = True
 
 			# We need to create a RAR file for each SRR block.
 			# Get the stored name and create it.
@@ -1314,12 +1312,13 @@ def reconstruct(srr_file, in_folder, out_folder, extract_paths=True, hints={},
 			if skip_volume:
 				# keep track of offsets in the packed file
 				if source_name != block.file_name:
-					skip_offset = block.packed_size
-				else:
-					skip_offset += block.packed_size
-				
+					source_offset = 0
+				source_offset += block.packed_size
 				source_name = block.file_name
-				running_crc = 0
+				# the next wanted volume opens the file again
+				try: srcfs.close()
+				except: pass
+				srcfs = None
 				continue
 
 			# This is the main RAR block and treat it differently.
@@ -1334,12 +1333,13 @@ def reconstruct(srr_file, in_folder, out_folder, extract_paths=True, hints={},
 #			if block.packed_size > 0:
 			# Make sure we have the correct extracted file open. 
 			# If not, attempt to locate and open it.
-			if (source_name != block.file_name
-				or (partial_reconstruction and not partial_set)
-				or (partial_set and source_name != block.file_name)):
+			if source_name != block.file_name or not srcfs:
 				try: srcfs.close()
 				except: pass
+				if source_name != block.file_name:
+					source_offset = 0
 				source_name = block.file_name
+				srcfs = None
 				running_crc = 0
 				try:
 					# block is a directory: make it not crash
@@ -1369,15 +1369,14 @@ def reconstruct(srr_file, in_folder, out_folder, extract_paths=True, hints={},
 						srcfs = FakeFile(block.unpacked_size)
 					else:
 						raise
+				# the data in the skipped volumes before this one
+				running_crc = _skip(srcfs, source_offset, skip_rar_crc)
 			assert srcfs
 			
-			# make sure the offset is correct
-			if partial_reconstruction and not partial_set:
-				srcfs.seek(skip_offset)
-			
 			# then grab the correct amount of data from the extracted file
 			running_crc = _repack(block, rarfs, in_folder, srcfs, running_crc, 
 			                      skip_rar_crc)
+			source_offset += block.packed_size
 		elif (BlockType.RarMin <= block.rawtype <= BlockType.RarMax or 
 			(block.rawtype == 0x00 and block.header_size == 20)): #TODO: test
 			if not skip_volume:
@@ -1524,6 +1523,20 @@ def _auto_locate_renamed(name, size, in_folder):
 				return f
 	return ""
 		
+def _skip(srcfs, amount, skip_rar_crc):
+	"""Moves amount bytes forward in a file that was just opened.
+	Returns the CRC of these bytes; it is part of the CRC of the file."""
+	crc = 0
+	if skip_rar_crc and amount:
+		srcfs.seek(amount)
+	while amount and not skip_rar_crc:
+		data = srcfs.read(min(amount, 0x10000))
+		if not data:
+			break
+		crc = zlib.crc32(data, crc)
+		amount -= len(data)
+	return crc
+
 def _repack(block, rarfs, in_folder, srcfs, running_crc, skip_rar_crc):
 	"""
 	Adds a file to the RAR archive.
-- 
2.43.0


From 43e27754ac7c8f33523afa5e4cbcbee53eeb26db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:46 +0000
Subject: [PATCH 24/25] fix: decode UTF-8 names of files in RAR volumes

A file name with the Unicode flag and without a zero byte is UTF-8 (as the
comment of UnicodeFilename says). It was decoded as the other encoding and
lost its last byte.
---
 rescene/rar.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/rescene/rar.py b/rescene/rar.py
index 44a4109..310b8c9 100644
--- a/rescene/rar.py
+++ b/rescene/rar.py
@@ -1053,9 +1053,15 @@ class RarPackedFileBlock(RarBlock): # 0x74
 		self._p += filename_length
 		if self.flags & RarPackedFileBlock.UTF8_FILE_NAME:
 			null = self.file_name.find(ZERO) # index zero byte
-			self.orig_filename = self.file_name[:null]
-			u = UnicodeFilename(self.orig_filename, self.file_name[null + 1:])
-			self.unicode_filename = u.decode()
+			if null < 0: # not there: the name is encoded using UTF-8
+				self.orig_filename = self.file_name
+				self.unicode_filename = self.file_name.decode("utf-8",
+				                                              "replace")
+			else:
+				self.orig_filename = self.file_name[:null]
+				u = UnicodeFilename(self.orig_filename,
+				                    self.file_name[null + 1:])
+				self.unicode_filename = u.decode()
 		else:
 			self.orig_filename = self.file_name
 			self.unicode_filename = self.file_name.decode(DEFAULT_CHARSET, 
-- 
2.43.0


From 97b74acd4601be77c99d200d7e0628c1930d0984 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:17:35 +0000
Subject: [PATCH 25/25] fix: read the same file from all volumes when none is
 named

RarStream without a file name took the first file of every volume instead
of the parts of the first file.
---
 rescene/rarstream.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/rescene/rarstream.py b/rescene/rarstream.py
index 0d8611b..c81449c 100644
--- a/rescene/rarstream.py
+++ b/rescene/rarstream.py
@@ -79,6 +79,8 @@ class RarStream(io.IOBase):
 		rar_file = first_rar
 		while os.path.isfile(rar_file):
 			is_old = self._process(rar_file, packed_file_name, compressed)
+			# the file chosen in the first volume is the one to read
+			packed_file_name = self.packed_file_name
 			rar_file = utility.next_archive(rar_file, is_old)
 
 		try:
-- 
2.43.0

