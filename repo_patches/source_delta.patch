From e1451dbd8ffa7ba81c89cf259a160502bad6fe54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:01 +0000
Subject: [PATCH 01/48] fix: honour t1 and t2 in convert

The end time was ignored while the first files were written, an end time inside or
before the first window raised ValueError, a start time after the first block raised
IndexError, numbers (documented as seconds since the epoch) raised TypeError, and blocks
advanced two at a time so that data shortly before t2 could be left unread. Trimming to
the nearest sample could also write a sample twice when the window length is not a
multiple of the sample interval.
---
 gemlog/core.py | 26 +++++++++++++++++---------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/gemlog/core.py b/gemlog/core.py
index f1aad87..51ebf74 100644
--- a/gemlog/core.py
+++ b/gemlog/core.py
@@ -211,15 +211,18 @@ def convert(rawpath = '.', convertedpath = 'converted', metadatapath = 'metadata
         elif (units == 'Counts') | (units == 'counts'):
             bitweight = 1
       
+    p = _merge_gaps(p)
     ## if not specified, define t1 as the earliest integer-second time available
     if(np.isinf(float(t1))):
-        p = L['data']
-        p = _merge_gaps(p)
         t1 = p[0].stats.starttime
         t1 = obspy.core.UTCDateTime(np.ceil(float(t1)))
+    else:
+        t1 = obspy.core.UTCDateTime(t1)
 
     if(np.isinf(float(t2))):
         t2 = obspy.core.UTCDateTime.strptime('9999-12-31 23:59:59', '%Y-%m-%d %H:%M:%S') # timekeeping apocalypse
+    else:
+        t2 = obspy.core.UTCDateTime(t2)
   
     wsn = 0
     while(len(SN) < 3): # take the first non-NA SN. This is important because there can be blank files in there.
@@ -265,6 +268,8 @@ def convert(rawpath = '.', convertedpath = 'converted', metadatapath = 'metadata
         gps[wgps].to_csv(gpsfile, index=False)
 
     hour_to_write = max(t1, p[0].stats.starttime)
+    p.trim(endtime = t2, nearest_sample = False) # write nothing after t2
+    t1 = hour_to_write # there are no blocks to convert before the first data
     
     ## read sets of (12*blockdays) files until all the files are converted
     while(True):
@@ -275,7 +280,7 @@ def convert(rawpath = '.', convertedpath = 'converted', metadatapath = 'metadata
             break # already converted the requested data
         ## load new data if necessary
         tt2 = min(t2, _trunc_UTCDateTime(t1, 86400*blockdays) + 86400*blockdays)
-        while((p[-1].stats.endtime < tt2) & (n1 <= max(nums))):
+        while(((len(p) == 0) or (p[-1].stats.endtime < tt2)) and (n1 <= max(nums))):
             try:
                 L = read_gem(path = rawpath, nums = nums[(nums >= n1) & (nums < (n1 + (12*blockdays)))], SN = SN, network = network, station = station, location = location)
             except MissingRawFiles: # this can happen if a block of empty files is encountered
@@ -299,6 +304,7 @@ def convert(rawpath = '.', convertedpath = 'converted', metadatapath = 'metadata
                     print('Problem with files, skipping: ' + L['header'].file[i])
 
             p = _merge_gaps(p + L['data'])
+            p.trim(endtime = t2, nearest_sample = False)
                 
             ## start metadata and gps files
             metadata = L['metadata']   
@@ -310,10 +316,10 @@ def convert(rawpath = '.', convertedpath = 'converted', metadatapath = 'metadata
                 gps.to_csv(gpsfile, index=False, mode='a', header=False)
             problems += L['problems']
         ## run the conversion and write new converted files
-        while((hour_to_write + file_length_sec) <= p[-1].stats.endtime):
+        while((len(p) > 0) and ((hour_to_write + file_length_sec) <= p[-1].stats.endtime)):
             #hour_to_write = _write_hourlong_mseed(p, hour_to_write, file_length_sec, bitweight, convertedpath, output_format=output_format)
             hour_to_write = _write_hourlong_mseed(p, hour_to_write, file_length_sec, bitweight, convertedpath, output_format=output_format)
-            p.trim(hour_to_write, t2)
+            p.trim(hour_to_write, nearest_sample = False) # nearest_sample could keep a sample already written
             p = p.split()
             if(len(p) > 0):
                 hour_to_write = p[0].stats.starttime
@@ -321,12 +327,14 @@ def convert(rawpath = '.', convertedpath = 'converted', metadatapath = 'metadata
                 break
             
         ## update start time to convert
-        p.trim(hour_to_write, t2)
-        t1 = _trunc_UTCDateTime(tt2+(86400*blockdays) + 1, 86400*blockdays)
+        p.trim(hour_to_write, nearest_sample = False)
+        if(tt2 >= t2):
+            break # already read all the requested data
+        t1 = _trunc_UTCDateTime(tt2 + 1, 86400*blockdays)
     ## done reading new files. write what's left and end.
-    while((hour_to_write <= p[-1].stats.endtime) & (len(p) > 0)):
+    while((len(p) > 0) and (hour_to_write <= p[-1].stats.endtime)):
         hour_to_write = _write_hourlong_mseed(p, hour_to_write, file_length_sec, bitweight, convertedpath, output_format=output_format)
-        p.trim(hour_to_write, t2)
+        p.trim(hour_to_write, nearest_sample = False)
         p = p.split()
         if(len(p) > 0):
             hour_to_write = p[0].stats.starttime
-- 
2.43.0


From 346712d762249e8d7ddae0ebac6b23873d3bdff6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:01 +0000
Subject: [PATCH 02/48] fix: keep samples of 0.8/0.85 files after a pause
 between files

The millisecond counter of these formats rolls over at 2**16, not 2**13, so adding 2**13 could
leave the next file's samples out of order and drop them. A first sample equal to the last one
of the previous file (modulo the rollover) is also in the past.
---
 gemlog/core.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/gemlog/core.py b/gemlog/core.py
index 51ebf74..829fe97 100644
--- a/gemlog/core.py
+++ b/gemlog/core.py
@@ -1059,10 +1059,11 @@ def _read_several(fnList, version = 0.9, require_gps = True):
             else:
                 raise CorruptRawFile('Invalid raw file format version: ' + str(version))
             ## make sure the first millis is > startMillis
-            if(L['data'][0,0] < startMillis):
-                L['metadata'].millis += 2**13
-                L['gps'].msPPS += 2**13
-                L['data'][:,0] += 2**13
+            if(len(D) > 0 and L['data'][0,0] <= startMillis) or (L['data'][0,0] < startMillis):
+                rollover = 2**16 if str(version) in ['0.8', '0.85'] else 2**13
+                L['metadata'].millis += rollover
+                L['gps'].msPPS += rollover
+                L['data'][:,0] += rollover
             ## if the millis series is discontinuous, reject the file
             dMillis = np.diff(L['data'][:,0])
             if any(dMillis < 0) or any(dMillis > 1000):
-- 
2.43.0


From b01f0f0cf240fa2fb7c877074d312cd995b040f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:01 +0000
Subject: [PATCH 03/48] fix: reject raw files with repeated sample times
 instead of losing the whole stretch

Two samples with the same time made the interpolation of the entire continuous stretch fail
silently, discarding the data of every neighbouring file too.
---
 gemlog/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gemlog/core.py b/gemlog/core.py
index 829fe97..2463643 100644
--- a/gemlog/core.py
+++ b/gemlog/core.py
@@ -1066,7 +1066,7 @@ def _read_several(fnList, version = 0.9, require_gps = True):
                 L['data'][:,0] += rollover
             ## if the millis series is discontinuous, reject the file
             dMillis = np.diff(L['data'][:,0])
-            if any(dMillis < 0) or any(dMillis > 1000):
+            if any(dMillis <= 0) or any(dMillis > 1000):
                 raise CorruptRawFile(f'{fn} sample times are discontinuous, skipping this file')
 
             header_info = _calculate_drift(L, fn, require_gps)
-- 
2.43.0


From 6a4ff445adaaea0167a09953fd8b7cec5de78b34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:01 +0000
Subject: [PATCH 04/48] fix: do not interpolate from an isolated first or last
 sample across a gap

The first and last sample were excluded from the break search, so data were invented in the gap
next to them. A stretch shorter than a sample interval made read_gem fail with IndexError.
---
 gemlog/core.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/gemlog/core.py b/gemlog/core.py
index 2463643..87f14f2 100644
--- a/gemlog/core.py
+++ b/gemlog/core.py
@@ -1294,7 +1294,7 @@ def _interp_time(data, t1 = -np.inf, t2 = np.inf, min_step = 0, max_step = 0.025
     t1 = t_in[t_in >= (t1 - 0.01 - eps)][0]
     t2 = t_in[t_in <= (t2 + .01 + eps)][-1] # add a sample because t2 is 1 sample before the hour
     breaks_raw = np.where((np.diff(t_in) > max_step) | (np.diff(t_in) < min_step) )[0] # 2020-11-04: check for backwards steps too
-    breaks = breaks_raw[(t_in[breaks_raw] > t1) & (t_in[breaks_raw+1] < t2)]
+    breaks = breaks_raw[(t_in[breaks_raw] >= t1) & (t_in[breaks_raw+1] <= t2)]
     starts = np.hstack([t1, t_in[breaks+1]]) # start times of continuous chunks
     ends = np.hstack([t_in[breaks], t2]) # end times of continuous chunks
     w_same = (starts != ends)
@@ -1315,6 +1315,8 @@ def _interp_time(data, t1 = -np.inf, t2 = np.inf, min_step = 0, max_step = 0.025
             ##                    ' and ' + str(obspy.UTCDateTime(ends[i]))))
         #t_interp = np.arange(starts[i], ends[i] + eps, 0.01) # this is a bug in np.arange--intervals can be inconsistent when delta is float. This can result in significant timing errors, especially for long traces.
         t_interp = np.round(starts[i] + np.arange(np.trunc((ends-starts)[i]/0.01)) * 0.01, 2)
+        if len(t_interp) == 0: # too short to contain a sample
+            continue
         p_interp = np.array(f(t_interp).round(), dtype = 'int32')
         tr = obspy.Trace(p_interp)
         tr.stats.starttime = t_interp[0]
-- 
2.43.0


From fa676420797e0590a5ae8a53a8ce0d7e8c992bf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:30 +0000
Subject: [PATCH 05/48] fix: do not overwrite a converted file when two pieces
 start in the same second

File names have a resolution of one second, so short pieces between recording gaps replaced
each other. The later piece now gets the hundredths of a second in its name.
---
 gemlog/core.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/gemlog/core.py b/gemlog/core.py
index 87f14f2..6632f81 100644
--- a/gemlog/core.py
+++ b/gemlog/core.py
@@ -270,6 +270,7 @@ def convert(rawpath = '.', convertedpath = 'converted', metadatapath = 'metadata
     hour_to_write = max(t1, p[0].stats.starttime)
     p.trim(endtime = t2, nearest_sample = False) # write nothing after t2
     t1 = hour_to_write # there are no blocks to convert before the first data
+    written = set() # names of the converted files written so far
     
     ## read sets of (12*blockdays) files until all the files are converted
     while(True):
@@ -318,7 +319,7 @@ def convert(rawpath = '.', convertedpath = 'converted', metadatapath = 'metadata
         ## run the conversion and write new converted files
         while((len(p) > 0) and ((hour_to_write + file_length_sec) <= p[-1].stats.endtime)):
             #hour_to_write = _write_hourlong_mseed(p, hour_to_write, file_length_sec, bitweight, convertedpath, output_format=output_format)
-            hour_to_write = _write_hourlong_mseed(p, hour_to_write, file_length_sec, bitweight, convertedpath, output_format=output_format)
+            hour_to_write = _write_hourlong_mseed(p, hour_to_write, file_length_sec, bitweight, convertedpath, output_format=output_format, written=written)
             p.trim(hour_to_write, nearest_sample = False) # nearest_sample could keep a sample already written
             p = p.split()
             if(len(p) > 0):
@@ -333,7 +334,7 @@ def convert(rawpath = '.', convertedpath = 'converted', metadatapath = 'metadata
         t1 = _trunc_UTCDateTime(tt2 + 1, 86400*blockdays)
     ## done reading new files. write what's left and end.
     while((len(p) > 0) and (hour_to_write <= p[-1].stats.endtime)):
-        hour_to_write = _write_hourlong_mseed(p, hour_to_write, file_length_sec, bitweight, convertedpath, output_format=output_format)
+        hour_to_write = _write_hourlong_mseed(p, hour_to_write, file_length_sec, bitweight, convertedpath, output_format=output_format, written=written)
         p.trim(hour_to_write, nearest_sample = False)
         p = p.split()
         if(len(p) > 0):
@@ -343,7 +344,7 @@ def convert(rawpath = '.', convertedpath = 'converted', metadatapath = 'metadata
     return problems
 ####################################
 
-def _write_hourlong_mseed(p, hour_to_write, file_length_sec, bitweight, convertedpath, hour_end = np.nan, output_format='mseed'):
+def _write_hourlong_mseed(p, hour_to_write, file_length_sec, bitweight, convertedpath, hour_end = np.nan, output_format='mseed', written = None):
     eps = 1e-6
     if(np.isnan(hour_end)):
         hour_end = _trunc_UTCDateTime(hour_to_write, file_length_sec) + file_length_sec
@@ -355,6 +356,10 @@ def _write_hourlong_mseed(p, hour_to_write, file_length_sec, bitweight, converte
         tr.stats.calib = bitweight
         fn = _make_filename_converted(tr, output_format)
         if(len(tr) > 0):
+            if written is not None:
+                if fn in written: # a piece starting in the same second must not overwrite an earlier one
+                    fn = fn.replace('.', f'_{tr.stats.starttime.microsecond//10000:02}.', 1)
+                written.add(fn)
             print(tr)
             if(output_format.lower() == 'wav'):
                 write_wav(tr, filename = fn, path = convertedpath)
-- 
2.43.0


From fd951555bd3e0c40db01b7cb2d28afc1cf274f5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:22 +0000
Subject: [PATCH 06/48] fix: creating output folders must not race between
 parallel conversions

With more than one process the check-then-create sequence made the loser exit without converting.
---
 gemlog/core.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/gemlog/core.py b/gemlog/core.py
index 6632f81..5133b29 100644
--- a/gemlog/core.py
+++ b/gemlog/core.py
@@ -233,7 +233,7 @@ def convert(rawpath = '.', convertedpath = 'converted', metadatapath = 'metadata
     if(len(gpsfile) == 0):
         if(not os.path.isdir(gpspath)):
             try:
-                os.makedirs(gpspath) # makedirs vs mkdir means if gpspath = dir1/dir2, and dir1 doesn't exist, that dir1 will be created and then dir1/dir2 will be created
+                os.makedirs(gpspath, exist_ok=True) # makedirs vs mkdir means if gpspath = dir1/dir2, and dir1 doesn't exist, that dir1 will be created and then dir1/dir2 will be created
             except:
                 print('Failed to make directory ' + gpspath)
                 sys.exit(2)
@@ -243,7 +243,7 @@ def convert(rawpath = '.', convertedpath = 'converted', metadatapath = 'metadata
     if(len(metadatafile) == 0):
         if(not os.path.isdir(metadatapath)):
             try:
-                os.makedirs(metadatapath)
+                os.makedirs(metadatapath, exist_ok=True)
             except:
                 print('Failed to make directory ' + metadatapath)
                 sys.exit(2)
@@ -252,7 +252,7 @@ def convert(rawpath = '.', convertedpath = 'converted', metadatapath = 'metadata
     ## if the converted directory does not exist, make it
     if(not os.path.isdir(convertedpath)):
         try:
-            os.makedirs(convertedpath)
+            os.makedirs(convertedpath, exist_ok=True)
         except:
             print('Failed to make directory ' + convertedpath)
             sys.exit(2)
-- 
2.43.0


From 829936193ceb6ce0e7ee0ce49d72983f34d4697f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:22 +0000
Subject: [PATCH 07/48] fix: a file with a bad first header must not abort
 reading, and dropped files are reported

An unknown format version or gain in the first file of a block raised Exception/BaseException out of
convert although all other files were good, leading files with unreadable headers were dropped without
a word, and the problems of blocks without any usable file were lost.
---
 gemlog/core.py | 26 +++++++++++++++++++-------
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/gemlog/core.py b/gemlog/core.py
index 5133b29..07c08df 100644
--- a/gemlog/core.py
+++ b/gemlog/core.py
@@ -156,12 +156,17 @@ def convert(rawpath = '.', convertedpath = 'converted', metadatapath = 'metadata
     ## filter out raw files whose serial numbers don't match SN
     fn_new = []
     corrupt_files_flag = False
+    problems = []
     for file in fn:
         try:
             if _read_SN(file) == SN:
                 fn_new.append(file)
+            elif file[-3:] == SN:
+                problems.append(f'Serial number in {file} is not {SN}, skipping this file')
         except:
             corrupt_files_flag = True
+            if os.path.getsize(file) > 10: # as in read_gem, smaller files count as empty
+                problems.append(f'Corrupt raw file {file}: missing serial number')
             pass # if we can't read the file's SN, it's corrupt and should be skipped
     fn = fn_new
     
@@ -194,10 +199,12 @@ def convert(rawpath = '.', convertedpath = 'converted', metadatapath = 'metadata
             L = read_gem(path = rawpath, nums = nums_block, SN = SN, network = network, station = station, location = location)
         except MissingRawFiles: # if the block has no files, keep searching
             continue
-        except CorruptRawFile: # if the block has no files, keep searching
+        except CorruptRawFile as exception_message: # if the block has no files, keep searching
+            problems.append(str(exception_message))
             continue
         except: # if there's any other problem, raise it
             raise
+        problems += L['problems']
     if L['data'].count() == 0:
         raise MissingRawFiles(f'No non-corrupt raw files found in folder "{rawpath}"')
     p = L['data']
@@ -260,7 +267,6 @@ def convert(rawpath = '.', convertedpath = 'converted', metadatapath = 'metadata
     ## start metadata and gps files
     metadata = L['metadata']   
     gps = L['gps']
-    problems = L['problems']
     metadata.to_csv(metadatafile, index=False) ## change to metadata format. need to make ScanMnetadata compatible with both
 
     wgps = (gps['t'] > (t1 - 1)) 
@@ -286,13 +292,15 @@ def convert(rawpath = '.', convertedpath = 'converted', metadatapath = 'metadata
                 L = read_gem(path = rawpath, nums = nums[(nums >= n1) & (nums < (n1 + (12*blockdays)))], SN = SN, network = network, station = station, location = location)
             except MissingRawFiles: # this can happen if a block of empty files is encountered
                 continue
-            except CorruptRawFile: # if the block has no files, keep searching
+            except CorruptRawFile as exception_message: # if the block has no files, keep searching
+                problems.append(str(exception_message))
                 continue
             except: # especially for KeyboardInterrupt!
                 raise
             finally:
                 n1 = n1 + (12*blockdays) # increment file counter
 
+            problems += L['problems']
             if(len(L['data']) == 0):
                 continue # skip ahead if there aren't any readable data files here
 
@@ -315,7 +323,6 @@ def convert(rawpath = '.', convertedpath = 'converted', metadatapath = 'metadata
             ## update the gps file
             if(len(wgps) > 0):
                 gps.to_csv(gpsfile, index=False, mode='a', header=False)
-            problems += L['problems']
         ## run the conversion and write new converted files
         while((len(p) > 0) and ((hour_to_write + file_length_sec) <= p[-1].stats.endtime)):
             #hour_to_write = _write_hourlong_mseed(p, hour_to_write, file_length_sec, bitweight, convertedpath, output_format=output_format)
@@ -509,13 +516,17 @@ def read_gem(path = 'raw', nums = np.arange(10000), SN = '', units = 'Pa', bitwe
     ## at this point, if we don't have any files, raise a missing file exception
     if len(fnList) == 0:
         raise MissingRawFiles(str(path) + ': ' + str(nums))
+    problems = []
     while True:
         if len(fnList) == 0: # at this point, if we have no files, they're all corrupt. 
-            raise CorruptRawFile(str(path) + ': ' + str(nums))
+            raise CorruptRawFile('; '.join([str(path) + ': ' + str(nums)] + problems))
         try:
             version = _read_format_version(fnList[0])
             config = _read_config(fnList[0])
-        except: # if we can't read the config for the first file here, drop it and try the next one
+            if (version not in _time_corrections) or (config['adc_range'] not in [0, 1]):
+                raise CorruptRawFile(fnList[0] + ': Invalid or missing data format or configuration')
+        except Exception: # if we can't read the config for the first file here, drop it and try the next one
+            problems.append(f'Corrupt raw file {fnList[0]}: unreadable header')
             fnList = fnList[1:] # 
         else:
             break
@@ -526,9 +537,10 @@ def read_gem(path = 'raw', nums = np.arange(10000), SN = '', units = 'Pa', bitwe
     else:
         raise Exception(fnList[0] + ': Invalid or missing data format')
 
+    L['problems'] = problems + L['problems']
     ## stop early if we don't have data to process
     if len(L['data']) == 0:
-        raise CorruptRawFileInadequateGPS('Inadequate GPS information in data files ' + str(nums) + ' for SN "' + SN + '" in raw directory ' + str(path))
+        raise CorruptRawFileInadequateGPS('; '.join(['Inadequate GPS information in data files ' + str(nums) + ' for SN "' + SN + '" in raw directory ' + str(path)] + L['problems']))
 
     if L['gps'].shape[0] == 0:
         for key in L['gps'].keys():
-- 
2.43.0


From 859609c5a3cfcf41a76d4640beb4b1d17c323c84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:54 +0000
Subject: [PATCH 08/48] fix: parse only complete lines of raw files and close
 the file on overflow

Incomplete D, G and M lines repeated numbers of earlier lines, a truncated last line gave a wrong
sample, pieces of overlong lines and lower-case text were taken for samples, and the file stayed
open when it had more rows than the buffer.
---
 gemlog/parsers.pyx | 45 ++++++++++++++++++++++++++++++++++++++-------
 1 file changed, 38 insertions(+), 7 deletions(-)

diff --git a/gemlog/parsers.pyx b/gemlog/parsers.pyx
index 030908f..084bc2a 100644
--- a/gemlog/parsers.pyx
+++ b/gemlog/parsers.pyx
@@ -4,6 +4,7 @@ Cython-based file parsers.
 
 import numpy as np
 from libc.stdio cimport fopen, fclose, fgets, FILE, sscanf
+from libc.string cimport memchr, memset
 
 
 def parse_gemfile(filename, n_row = 1560000):
@@ -30,13 +31,11 @@ def parse_gemfile(filename, n_row = 1560000):
     cdef char* fname = filename
 
     cdef FILE* cfile
-    cfile = fopen(fname, "rb")
-    if cfile == NULL:
-        msg = "No such file or directory: '{}'".format(filename)
-        raise FileNotFoundError(2, msg)
 
     cdef char line[256]
     cdef char* read
+    cdef char* newline
+    cdef int complete = 0, continuation = 0, n_chars = 0
     cdef char line_type = 0
 
     cdef int n_matched = 0
@@ -71,15 +70,38 @@ def parse_gemfile(filename, n_row = 1560000):
 
     cdef Py_ssize_t line_number = 0
     # were this python 3.8 we could maybe use the walrus operator.  alas
+    cfile = fopen(fname, "rb")
+    if cfile == NULL:
+        msg = "No such file or directory: '{}'".format(filename)
+        raise FileNotFoundError(2, msg)
+
     while True:
-        read = fgets(line, sizeof(line), cfile);
+        # prefill the line so that the newline that was read can be told from text containing nulls
+        memset(line, 10, sizeof(line)) # ord('\n')
+        read = fgets(line, sizeof(line), cfile)
         if read == NULL:
             # EOF
             break
 
+        # only read complete lines: skip a last line with no line ending, and all of any overlong line
+        newline = <char*> memchr(line, 10, sizeof(line))
+        complete = (newline != NULL) and (newline + 1 < line + sizeof(line)) and (newline[1] == 0)
+        if continuation or not complete:
+            continuation = not complete
+            continue
+
+        if line_number >= n_row:
+            fclose(cfile)
+            raise IndexError('File has more than {} rows'.format(n_row))
+
         line_type = line[0]
         if (line_type >= 97) and (line_type <= 122): # ord('a'), ord('z')
-            if (line[1] < 97) or(line[1] > 122):
+            n_chars = newline - line
+            if (n_chars > 1) and (newline[-1] == 13): # ord('\r')
+                n_chars -= 1
+            if (n_chars > 2) or ((n_chars == 2) and ((line[1] < 97) or (line[1] > 122))):
+                continue # not a data line
+            if n_chars == 1:
                 view[line_number, 0] = line[0] - 109 # diff_ADC
                 current_dD_millis = (prev_dD_millis + 10) % (2**13)
             else:
@@ -92,8 +114,13 @@ def parse_gemfile(filename, n_row = 1560000):
         elif line_type == 68:  # ord('D') == 68
             # DmsSamp,ADC
             # D7780,-1
-            n_matched = sscanf(line + 1, "%lf,%d", &DmsSamp, &ADC)
+            n_chars = 0
+            n_matched = sscanf(line + 1, "%lf%n,%d", &DmsSamp, &n_chars, &ADC)
+            if n_matched < 1:
+                continue # incomplete line
             if n_matched == 1: # failed to read the 2-element format, try just 1 element
+                if (line[1 + n_chars] != 10) and (line[1 + n_chars] != 13):
+                    continue # incomplete line
                 view[line_number, 0] = DmsSamp
                 DmsSamp = (prev_dD_millis + 10) % (2**13)
             else: # n_matched == 2
@@ -108,6 +135,8 @@ def parse_gemfile(filename, n_row = 1560000):
                                "%lf,%lf,%d,%d,%d,%d,%d,%lf,%lf,%lf",
                                &msPPS, &msLag, &yr, &mo, &day, &hr, &mn,
                                &sec, &lat, &lon)
+            if n_matched < 10:
+                continue # incomplete line
             view[line_number, 0] = msLag
             view[line_number, 1] = yr
             view[line_number, 2] = mo
@@ -128,6 +157,8 @@ def parse_gemfile(filename, n_row = 1560000):
                                &ms, &batt, &temp, &A2, &A3, &maxLag,
                                &minFree, &maxUsed, &maxOver, &gpsFlag,
                                &freeStack1, &freeStackIdle)
+            if n_matched < 12:
+                continue # incomplete line
             view[line_number, 0] = batt
             view[line_number, 1] = temp
             view[line_number, 2] = A2
-- 
2.43.0


From 65ae139c0c72ec68bc28c6099a73c1ba5fa39b48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:28 +0000
Subject: [PATCH 09/48] fix: accept files whose GPS times fit the clock
 perfectly

When all residuals are equal up to rounding, their standard deviation is zero, every fix counts as an
outlier, and the file was refused.
---
 gemlog/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gemlog/core.py b/gemlog/core.py
index 07c08df..4be7d42 100644
--- a/gemlog/core.py
+++ b/gemlog/core.py
@@ -1222,7 +1222,7 @@ def _robust_regress(x, y, degree = 3, MAD = 0.01, z = 4, recursive_depth = np.in
     resid = y - np.polynomial.Polynomial(reg)(x)
 
     ## If any are found to be outliers, remove them and recalculate recursively.
-    outliers = np.abs(resid) > (z*np.std(resid))
+    outliers = np.abs(resid) > max(z*np.std(resid), 1e-5) # 1e-5 s: rounding errors are not outliers
     if not any(outliers):
         outliers = np.abs(resid) > MAD
     if any(outliers) and (recursive_depth > 0):
-- 
2.43.0


From ce1ddabe29c4507d0504856594caed07b93baa58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:24 +0000
Subject: [PATCH 10/48] fix: evenly spaced output when a stretch starts half
 way between two samples

Every output time was rounded separately; if the first input sample lies within a microsecond of the
middle of a sample interval, rounding errors decide which way each goes, and samples are repeated and
skipped. Round the start once.
---
 gemlog/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gemlog/core.py b/gemlog/core.py
index 4be7d42..091798b 100644
--- a/gemlog/core.py
+++ b/gemlog/core.py
@@ -1331,7 +1331,7 @@ def _interp_time(data, t1 = -np.inf, t2 = np.inf, min_step = 0, max_step = 0.025
             ##    raise(Exception('_interp_time failed between ' +str(obspy.UTCDateTime(starts[i])) +\
             ##                    ' and ' + str(obspy.UTCDateTime(ends[i]))))
         #t_interp = np.arange(starts[i], ends[i] + eps, 0.01) # this is a bug in np.arange--intervals can be inconsistent when delta is float. This can result in significant timing errors, especially for long traces.
-        t_interp = np.round(starts[i] + np.arange(np.trunc((ends-starts)[i]/0.01)) * 0.01, 2)
+        t_interp = np.round(np.round(starts[i], 2) + np.arange(np.trunc((ends-starts)[i]/0.01)) * 0.01, 2)
         if len(t_interp) == 0: # too short to contain a sample
             continue
         p_interp = np.array(f(t_interp).round(), dtype = 'int32')
-- 
2.43.0


From 87fa03c183060c9a2a7d7b3ef0b04cb0ae64b398 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:03 +0000
Subject: [PATCH 11/48] fix: the 0.91-to-1.10 transcoder labels its output with
 the format it writes

---
 gemlog/gemlog_aux.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gemlog/gemlog_aux.py b/gemlog/gemlog_aux.py
index bf94719..d624feb 100644
--- a/gemlog/gemlog_aux.py
+++ b/gemlog/gemlog_aux.py
@@ -424,7 +424,7 @@ def _convert_raw_091_110(infile, outfile):
     #Wall time: 22.2 s
 
 
-    output_format = '1.1'
+    output_format = '1.10'
     input_format = gemlog.core._read_format_version(infile)
     if input_format not in ['0.85C', '0.9', '0.91']:
         raise Exception('Invalid input format %s' % input_format)
-- 
2.43.0


From b91574e5bc6faa6006d6617e4a6860efe1f29c68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:29 +0000
Subject: [PATCH 12/48] fix: integers too long for an int no longer wrap around
 in the raw file parser

---
 gemlog/parsers.pyx | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/gemlog/parsers.pyx b/gemlog/parsers.pyx
index 084bc2a..b529b04 100644
--- a/gemlog/parsers.pyx
+++ b/gemlog/parsers.pyx
@@ -40,14 +40,14 @@ def parse_gemfile(filename, n_row = 1560000):
 
     cdef int n_matched = 0
     # D placeholders
-    cdef int ADC = 0
+    cdef long long ADC = 0
     cdef double DmsSamp = 0
     # G placeholders
-    cdef int yr = 0, mo = 0, day = 0, hr = 0, mn = 0
+    cdef long long yr = 0, mo = 0, day = 0, hr = 0, mn = 0
     cdef double msPPS = 0, msLag = 0, sec = 0, lat = 0, lon = 0
     # M placeholders
-    cdef int maxLag = 0, minFree = 0, maxUsed = 0, maxOver = 0
-    cdef int gpsFlag = 0, freeStack1 = 0, freeStackIdle = 0
+    cdef long long maxLag = 0, minFree = 0, maxUsed = 0, maxOver = 0
+    cdef long long gpsFlag = 0, freeStack1 = 0, freeStackIdle = 0
     cdef double ms = 0, batt = 0, temp = 0, A2 = 0, A3 = 0
 
     # array to store parsed data
@@ -115,7 +115,7 @@ def parse_gemfile(filename, n_row = 1560000):
             # DmsSamp,ADC
             # D7780,-1
             n_chars = 0
-            n_matched = sscanf(line + 1, "%lf%n,%d", &DmsSamp, &n_chars, &ADC)
+            n_matched = sscanf(line + 1, "%lf%n,%18lld", &DmsSamp, &n_chars, &ADC)
             if n_matched < 1:
                 continue # incomplete line
             if n_matched == 1: # failed to read the 2-element format, try just 1 element
@@ -132,7 +132,7 @@ def parse_gemfile(filename, n_row = 1560000):
             # G,msPPS,msLag,yr,mo,day,hr,min,sec,lat,lon
             # G,8171,70,2020,6,20,5,21,22.0,43.62226,-116.20594
             n_matched = sscanf(line + 2,
-                               "%lf,%lf,%d,%d,%d,%d,%d,%lf,%lf,%lf",
+                               "%lf,%lf,%18lld,%18lld,%18lld,%18lld,%18lld,%lf,%lf,%lf",
                                &msPPS, &msLag, &yr, &mo, &day, &hr, &mn,
                                &sec, &lat, &lon)
             if n_matched < 10:
@@ -153,7 +153,7 @@ def parse_gemfile(filename, n_row = 1560000):
             # gpsFlag,freeStack1,freeStackIdle
             # M,8001,3.02,22.1,1.412,2.052,94,66,9,0,0,57,86
             n_matched = sscanf(line + 2,
-                               "%lf,%lf,%lf,%lf,%lf,%d,%d,%d,%d,%d,%d,%d",
+                               "%lf,%lf,%lf,%lf,%lf,%18lld,%18lld,%18lld,%18lld,%18lld,%18lld,%18lld",
                                &ms, &batt, &temp, &A2, &A3, &maxLag,
                                &minFree, &maxUsed, &maxOver, &gpsFlag,
                                &freeStack1, &freeStackIdle)
-- 
2.43.0


From 81aeec17b94dc60c7b4400648afe68aa7d3c83f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:49 +0000
Subject: [PATCH 13/48] fix: isolated wrong GPS fixes must not discard a whole
 block of files

---
 gemlog/core.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/gemlog/core.py b/gemlog/core.py
index 091798b..584b6df 100644
--- a/gemlog/core.py
+++ b/gemlog/core.py
@@ -1277,8 +1277,9 @@ def _assign_times(L):
     G = _reformat_GPS(L['gps'])
     try:
         breaks = _find_breaks(L)
-    except:
-        raise CorruptRawFile('Problem between ' + fnList[0] + '-' + fnList[-1] + '; stopping before this interval. Break between recording periods? Corrupt files?')
+    except Exception: # the breaks are only debugging information; each file has its own time fit
+        print('Problem between ' + fnList[0] + '-' + fnList[-1] + '. Break between recording periods? Corrupt files?')
+        breaks = None
     piecewiseTimeFit = L['header']
     L['metadata']['t'] = _apply_segments(L['metadata']['millis'], piecewiseTimeFit)
     header = L['header']
-- 
2.43.0


From c17fd56ee9a3269910ad827a498c7514fc78566b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:02 +0000
Subject: [PATCH 14/48] fix: metadata after the last sample of a file get times
 too

---
 gemlog/core.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/gemlog/core.py b/gemlog/core.py
index 584b6df..6435c58 100644
--- a/gemlog/core.py
+++ b/gemlog/core.py
@@ -1281,7 +1281,14 @@ def _assign_times(L):
         print('Problem between ' + fnList[0] + '-' + fnList[-1] + '. Break between recording periods? Corrupt files?')
         breaks = None
     piecewiseTimeFit = L['header']
-    L['metadata']['t'] = _apply_segments(L['metadata']['millis'], piecewiseTimeFit)
+    metadata_t = _apply_segments(L['metadata']['millis'], piecewiseTimeFit)
+    ## metadata before the first or after the last sample of their file: use the nearest file's fit
+    good_fits = piecewiseTimeFit.loc[piecewiseTimeFit['drift_deg1'] != 0, :]
+    for i in np.where(np.isnan(metadata_t))[0]:
+        millis = L['metadata']['millis'].iloc[i]
+        distance = np.maximum(good_fits['start_ms'] - millis, millis - good_fits['end_ms'])
+        metadata_t[i] = _apply_fit(millis, good_fits.iloc[np.argmin(distance), :])
+    L['metadata']['t'] = metadata_t
     header = L['header']
     header['t1'] = _apply_segments(header.start_ms, piecewiseTimeFit)
     header['t2'] = _apply_segments(header.end_ms, piecewiseTimeFit)
-- 
2.43.0


From b4c6db44b6105d6c1b32edce7001c3efd70ff349 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:50 +0000
Subject: [PATCH 15/48] fix: output windows that are not a whole number of
 seconds long must not crash convert

---
 gemlog/core.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gemlog/core.py b/gemlog/core.py
index 6435c58..b8d9b42 100644
--- a/gemlog/core.py
+++ b/gemlog/core.py
@@ -411,7 +411,8 @@ def write_wav(tr, filename = None, path = '.', time_format = '%Y-%m-%dT%H_%M_%S'
     
 
 def _trunc_UTCDateTime(x, n=86400):
-    return obspy.core.UTCDateTime(int(float(x)/n)*n)#, origin='1970-01-01')
+    ## 1e-6: rounding errors must not place the start of an interval in the previous interval
+    return obspy.core.UTCDateTime(int((float(x) + 1e-6)/n)*n)#, origin='1970-01-01')
 
 def _make_filename(dir, SN, dirtype):
     n = 0
-- 
2.43.0


From 4e9fbc4e3fffc8e1f34c9f7195ef7736474ba761 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:33 +0000
Subject: [PATCH 16/48] fix: gemconvert_single reads raw formats 0.8 and 0.85
 too

---
 gemlog/core.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/gemlog/core.py b/gemlog/core.py
index b8d9b42..9157847 100644
--- a/gemlog/core.py
+++ b/gemlog/core.py
@@ -1566,7 +1566,14 @@ def _convert_one_file(input_filename, output_filename = None, require_gps = True
     try:
         if not os.path.exists(input_filename):
             raise MissingRawFiles(f'File "{input_filename}" not found')
-        L = _read_several([input_filename], require_gps = require_gps)
+        try:
+            version = _read_format_version(input_filename)
+        except Exception:
+            version = None
+        if version in ['0.8', '0.85']:
+            L = _read_several([input_filename], version = version, require_gps = require_gps)
+        else:
+            L = _read_several([input_filename], require_gps = require_gps)
         piecewiseTimeFit = L['header'].iloc[0,:]
     
         L['metadata']['t'] = _apply_fit(L['metadata']['millis'], piecewiseTimeFit)
-- 
2.43.0


From 9d98f32895411a05e384d2b385412017aa3bbfaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:33 +0000
Subject: [PATCH 17/48] fix: gemconvert_single accepts its documented long
 options

---
 gemlog/gemconvert_single.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gemlog/gemconvert_single.py b/gemlog/gemconvert_single.py
index 009c01a..c3906dc 100755
--- a/gemlog/gemconvert_single.py
+++ b/gemlog/gemconvert_single.py
@@ -28,7 +28,7 @@ def main(argv = None):
     output_file = None
     force_conversion = False
     try:
-        opts, args = getopt.getopt(argv,"hfi:o:")
+        opts, args = getopt.getopt(argv,"hfi:o:", ['help', 'force-conversion', 'input_file=', 'output_file='])
     except getopt.GetoptError:
         print_call()
         sys.exit(2)
@@ -42,7 +42,7 @@ def main(argv = None):
             input_file = arg
         elif opt in ("-o", "--output_file"):
             output_file = arg
-        elif opt in ("-f", "--force_conversion"):
+        elif opt in ("-f", "--force-conversion"):
             force_conversion = True
 
     print(f'gemlog version {gemlog.__version__}')
-- 
2.43.0


From 3440289070c02ca7ba2928b64fae855cd5e7c678 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:55 +0000
Subject: [PATCH 18/48] fix: gemconvert_single writes miniSEED when the output
 name has no extension

---
 gemlog/core.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/gemlog/core.py b/gemlog/core.py
index 9157847..e3cb996 100644
--- a/gemlog/core.py
+++ b/gemlog/core.py
@@ -1602,5 +1602,8 @@ def _convert_one_file(input_filename, output_filename = None, require_gps = True
             
     if output_filename is None:
         output_filename = os.path.split(input_filename)[-1] + '.mseed'
-    L['data'].write(output_filename)
+    if os.path.splitext(output_filename)[1] == '': # obspy cannot infer the format; use the default
+        L['data'].write(output_filename, format = 'MSEED')
+    else:
+        L['data'].write(output_filename)
     
-- 
2.43.0


From f5eb655302bb5e6b08b078056da0408ae161df6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:04 +0000
Subject: [PATCH 19/48] fix: judge GPS coverage of a file by where its
 consistent fixes are, not by the times they claim

---
 gemlog/core.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/gemlog/core.py b/gemlog/core.py
index e3cb996..6a63fa4 100644
--- a/gemlog/core.py
+++ b/gemlog/core.py
@@ -1135,7 +1135,8 @@ def _calculate_drift(L, fn, require_gps):
         sufficient_gps = False
     else:
         any_gps = True
-        sufficient_gps = (0.001024*(L['data'][-1,0] - L['data'][0,0]) / (L['gps'].t.iloc[-1] - L['gps'].t.iloc[0] + 1e-9)) < 2 # 1e-9 to prevent div by 0
+        ## compare millis, because GPS times can be wrong
+        sufficient_gps = ((L['data'][-1,0] - L['data'][0,0]) / (L['gps'].msPPS.iloc[-1] - L['gps'].msPPS.iloc[0] + 1e-9)) < 2 # 1e-9 to prevent div by 0
 
     if require_gps and not any_gps:
         raise CorruptRawFileNoGPS('No GPS data in ' + fn + ', skipping this file')
@@ -1151,7 +1152,7 @@ def _calculate_drift(L, fn, require_gps):
             ## run the GPS time vs millis regression
             reg, num_gps_nonoutliers, MAD_nonoutliers, resid, xx, yy = _robust_regress(L['gps'].msPPS, L['gps'].t)
             ## ensure that the regression was successful
-            if ((0.001024*(L['data'][-1,0] - L['data'][0,0]) / (xx.iloc[-1] - xx.iloc[0])) > 2) \
+            if (((L['data'][-1,0] - L['data'][0,0]) / (xx.iloc[-1] - xx.iloc[0])) > 2) \
                or (num_gps_nonoutliers < 10) \
                or MAD_nonoutliers > 0.01:
                 raise CorruptRawFileInadequateGPS('No useful GPS data in ' + fn + ', skipping this file')
-- 
2.43.0


From 4aadd19ebb0c61f8e803130a0c6411c77bfa9d89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:26 +0000
Subject: [PATCH 20/48] fix: an incomplete last line of a 0.8 or 0.85 file must
 not lose the whole continuous stretch

---
 gemlog/core.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/gemlog/core.py b/gemlog/core.py
index 6a63fa4..b263669 100644
--- a/gemlog/core.py
+++ b/gemlog/core.py
@@ -757,6 +757,10 @@ def _read_0_8_pd(filename, require_gps = True):
                              encoding_errors='ignore')
         except Exception as exception_message:
             raise CorruptRawFile('_read_0_8_pd; pd.read_csv: ' + str(exception_message))
+    with open(filename, 'rb') as file: # the last line is incomplete unless it ends with a newline
+        file.seek(-1, os.SEEK_END)
+        if file.read(1) != b'\n':
+            df = df.iloc[:-1,:]
     if df.shape[0] == 0:
         raise EmptyRawFile(filename)
 
@@ -772,6 +776,7 @@ def _read_0_8_pd(filename, require_gps = True):
         raise CorruptRawFileNoGPS(filename)
     
     df = df.loc[df.loc[:,'linetype'].isin(['D', 'M', 'G']), :]
+    df = df.loc[(df['linetype'] != 'D') | ~df[2].isna(), :] # skip data lines without a value
 
     ## most of the runtime is before here
     # unroll the ms rollover sawtooth
-- 
2.43.0


From f669bf8fa601d075a15d88a87d9b3f58bc4056c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:19 +0000
Subject: [PATCH 21/48] fix: gem_cat can append files of raw format 0.91

---
 gemlog/core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gemlog/core.py b/gemlog/core.py
index b263669..2bda1f7 100644
--- a/gemlog/core.py
+++ b/gemlog/core.py
@@ -873,7 +873,7 @@ def _read_single(filename, offset=0, require_gps = True, version = '0.9'):
 
 def _process_gemlog_data(df, offset=0, version = '0.9', require_gps = True):
     ## figure out what settings to used according to the raw file format version
-    if version in ['1.10', '0.9', '0.85C']:
+    if version in ['1.10', '0.91', '0.9', '0.85C']:
         rollover = 2**13
         M_cols = ['millis', 'batt', 'temp', 'A2', 'A3',
                   'maxWriteTime', 'minFifoFree', 'maxFifoUsed',
@@ -935,7 +935,7 @@ def _process_gemlog_data(df, offset=0, version = '0.9', require_gps = True):
 
 
     # process data (version-dependent)
-    if version in ['1.10', '0.9', '0.85C']: # don't integrate the data if version is 0.8, 0.85
+    if version in ['1.10', '0.91', '0.9', '0.85C']: # don't integrate the data if version is 0.8, 0.85
         D['ADC'] = D['ADC'].astype(float).cumsum()
 
     ## gps stuff
-- 
2.43.0


From bf4fdaa15a034cd86cc77ac0a5b297c711e6cbc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:19 +0000
Subject: [PATCH 22/48] fix: gem_cat must not join a file onto the incomplete
 last line of another

---
 gemlog/gem_cat.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/gemlog/gem_cat.py b/gemlog/gem_cat.py
index a6f96d5..ca3c2a5 100644
--- a/gemlog/gem_cat.py
+++ b/gemlog/gem_cat.py
@@ -114,6 +114,12 @@ def AppendFile(infile, outfile, prev_infile):
     outpath = os.path.dirname(outfile)
     if not os.path.exists(outpath):
         os.makedirs(outpath)
+
+    # if the last line of the output is incomplete (e.g. power was lost), drop it
+    with open(outfile, 'rb+') as OF:
+        contents = OF.read()
+        if not contents.endswith(b'\n'):
+            OF.truncate(contents.rfind(b'\n') + 1)
         
     format = _read_format_version(infile)
     if format in ['0.85C', '0.9', '0.91', '1.10']:
-- 
2.43.0


From 293f8a0c0fa3a47f1737720dbd504d7d3f81f57e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:12 +0000
Subject: [PATCH 23/48] fix: low gain uses the low-gain logger response

---
 gemlog/gem_network.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gemlog/gem_network.py b/gemlog/gem_network.py
index b032b28..119cec7 100644
--- a/gemlog/gem_network.py
+++ b/gemlog/gem_network.py
@@ -116,7 +116,7 @@ def get_gem_response(gain = 'high', sensor_file = '', logger_file = ''):
         if gain.lower() == 'high':
             logger_file = 'RESP.XX.GM002..HHZ.GEMINFRAV1.0.100'
         elif gain.lower() == 'low':
-            logger_file = 'RESP.XX.GM002..HHZ.GEMINFRAV1.0.100'
+            logger_file = 'RESP.XX.GM001..HHZ.GEMINFRAV1.1.100'
         else:
             raise ValueError(f'invalid gain: {gain}')
     response = _read_response(os.path.join(response_path, 'datalogger', logger_file))
-- 
2.43.0


From 2644b673baf0c0a813f4edde1074a9c14ef05c02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:42 +0000
Subject: [PATCH 24/48] fix: station tables without header, without optional
 columns, with blank elevations or given as DataFrame are read

---
 gemlog/gem_network.py | 29 ++++++++++++++++++-----------
 1 file changed, 18 insertions(+), 11 deletions(-)

diff --git a/gemlog/gem_network.py b/gemlog/gem_network.py
index 119cec7..de99f74 100644
--- a/gemlog/gem_network.py
+++ b/gemlog/gem_network.py
@@ -144,28 +144,32 @@ def _fix_station_info_keys(d):
     allowed_keys = ['SN', 'network', 'station', 'location', 'elevation']
     for key in allowed_keys:
         ## for the given allowed key, find the existing key that matches it
-        w = [test_key.lower()[:2] == key.lower()[:2] for test_key in d.keys()]
+        w = [test_key.lower() == key.lower() for test_key in d.keys()]
+        if not any(w): # no full match; accept abbreviations
+            w = [(key.lower().startswith(test_key.lower()) or test_key.lower().startswith(key.lower())) and
+                 (test_key not in allowed_keys) and (len(test_key) > 1) for test_key in d.keys()]
         if any(w):
             ## rename that key to the standard name
             d[key] = d.pop(list(d.keys())[np.where(w)[0][0]])
     return d
 
 def _get_station_info(station_info):
-    required_keys = ['sn', 'network', 'station', 'location']
+    default_keys = ['sn', 'network', 'station', 'location']
+    required_keys = ['SN', 'station']
     if type(station_info) == str:
         print('Reading file %s' % station_info)
-        header_df = pd.read_csv(station_info, nrows = 1, header = None, index_col = False)
+        header_df = pd.read_csv(station_info, nrows = 1, header = None, index_col = False, dtype = 'str', keep_default_na = False)
         header_list = [header_df[key][0] for key in header_df.keys()]
-        if all([i.lower() in (required_keys + ['elevation']) for i in header_list]): # file has header line
+        if all([i.lower() in (default_keys + ['elevation']) for i in header_list]): # file has header line
             print('File has valid header, using that for column names')
-            station_info = pd.read_csv(station_info, dtype = {key:'str' for key in header_list}, keep_default_na = False)
+            station_info = pd.read_csv(station_info, dtype = 'str', keep_default_na = False, index_col = False)
         else:
             if len(header_list) == 4:
                 print('File does not have a valid header, using default columns [SN, network, station, location]')
-                station_info = pd.read_csv(station_info, names = required_keys, dtype = {key:'str' for key in header_list}, keep_default_na = False, index_col = False)
+                station_info = pd.read_csv(station_info, names = default_keys, dtype = 'str', keep_default_na = False, index_col = False)
             elif len(header_list) == 5:
                 print('File does not have a valid header, using default columns [SN, network, station, location, elevation]')
-                station_info = pd.read_csv(station_info, names = required_keys + ['elevation'], dtype = {key:'str' for key in header_list}, keep_default_na = False, index_col = False)
+                station_info = pd.read_csv(station_info, names = default_keys + ['elevation'], dtype = 'str', keep_default_na = False, index_col = False)
             else:
                 raise Exception('invalid station_info file; must have 4 or 5 columns or valid header')
         ## if any keys are capitalized or abbreviated wrong, correct them
@@ -173,16 +177,19 @@ def _get_station_info(station_info):
     elif (type(station_info) is not pd.DataFrame):
         raise Exception('invalid station_info input')
     else:
-        #station_info = _fix_station_info_keys(station_info)
-        if any([key not in station_info.keys() for key in required_keys]):
-            raise Exception('invalid station_info input')
+        station_info = _fix_station_info_keys(station_info.reset_index(drop = True)) # works on a copy of the user's table
+    if any([key not in station_info.keys() for key in required_keys]):
+        raise Exception('invalid station_info input; columns SN and station are required')
+    for key in ['network', 'location']: # optional columns
+        if key not in station_info.keys():
+            station_info[key] = ''
     # if location and network fields are blank in file, they are interpreted as nan and must be
     # turned back into blank
     if 'elevation' not in station_info.keys():
         station_info['elevation'] = np.zeros(station_info.shape[0]) - 9999
         
     if station_info['elevation'].dtype == 'str':
-        station_info['elevation'] = station_info['elevation'].astype('float')
+        station_info['elevation'] = station_info['elevation'].replace('', 'nan').astype('float')
         
     station_info.loc[station_info.location.isna(), 'location'] = ''
     station_info.loc[station_info.network.isna(), 'network'] = ''
-- 
2.43.0


From 2bc0c781ecc6acb21d4b721375ab7956072922f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:42 +0000
Subject: [PATCH 25/48] fix: make_gem_inventory works when a network has no
 coordinates, and its default response can be written

---
 gemlog/gem_network.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/gemlog/gem_network.py b/gemlog/gem_network.py
index de99f74..268346b 100644
--- a/gemlog/gem_network.py
+++ b/gemlog/gem_network.py
@@ -227,6 +227,11 @@ def make_gem_inventory(station_info, coords, response = 'default'):
     elif any([key not in coords.keys() for key in ['lat', 'lon', 'elevation']]):
         raise Exception("invalid coords; must contain keys 'lat', 'lon', 'elevation'")
     
+    if type(response) is str:
+        if response != 'default':
+            raise ValueError(f'invalid response: {response}')
+        response = get_gem_response()
+
     ## create the inventory and loop through all the networks, stations, and locations in it
     inventory = obspy.Inventory()
     all_networks = _unique(station_info['network'])
@@ -279,6 +284,9 @@ def make_gem_inventory(station_info, coords, response = 'default'):
             station.start_date = np.min([channel.start_date for channel in station.channels])
             station.end_date = np.max([channel.end_date for channel in station.channels])
             network.stations.append(station)
+        ## move on to the next network if this one is empty
+        if len(network.stations) == 0:
+            continue
         ## append the current network to the inventory
         network.start_date = np.min([station.start_date for station in network.stations])
         network.end_date = np.max([station.end_date for station in network.stations])
-- 
2.43.0


From 580e2f0e4c9146308fb56bd7c13d7d5ba7a97ffa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:42 +0000
Subject: [PATCH 26/48] fix: read_gps and summarize_gps work with current
 pandas, read only GPS tables, and select the time window before looking for
 outliers

---
 gemlog/gem_network.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/gemlog/gem_network.py b/gemlog/gem_network.py
index 268346b..78e32e7 100644
--- a/gemlog/gem_network.py
+++ b/gemlog/gem_network.py
@@ -432,7 +432,7 @@ def read_gps(gps_dir_pattern, SN):
     gpsTable = pd.DataFrame(columns=['year', 'date', 'lat', 'lon', 't'])
     for gpsDir in gpsDirList:
         if os.path.isdir(gpsDir):
-            fnList = sorted(glob.glob(gpsDir + '/' + SN + '*'))
+            fnList = sorted(glob.glob(gpsDir + '/' + SN + 'gps*txt'))
         else:
             # in case the user provides the gps filename directly. requires that the filename start with SN.
             if pathlib.Path(gpsDir).name[:3] == SN:
@@ -440,8 +440,9 @@ def read_gps(gps_dir_pattern, SN):
             else:
                 fnList = []
         if len(fnList) > 0: # if any gps files matching SN are found, read and append the last
-            gpsTable = pd.concat([gpsTable,
-                                  pd.read_csv(fnList[-1], parse_dates = ['t'], date_parser = obspy.UTCDateTime)], ignore_index=True)
+            newTable = pd.read_csv(fnList[-1])
+            newTable['t'] = [obspy.UTCDateTime(t) for t in newTable['t']]
+            gpsTable = newTable if gpsTable.shape[0] == 0 else pd.concat([gpsTable, newTable], ignore_index=True)
     return gpsTable
 ReadLoggerGPS = read_gps # alias; v1.0.0
 
@@ -534,8 +535,9 @@ def summarize_gps(gps_dir_pattern, station_info = None, output_file = None, t1 =
     seFun = lambda x: np.std(x)/np.sqrt(len(x))
     for i, SN in enumerate(snList):
         print(str(i+1) + ' of ' + str(len(snList)) + ': ' + SN)
-        gpsTable = _remove_outliers(read_gps(gps_dir_pattern, SN))
+        gpsTable = read_gps(gps_dir_pattern, SN)
         gpsTable = gpsTable.iloc[np.where((gpsTable.t >= t1) & (gpsTable.t <= t2))[0], :]
+        gpsTable = _remove_outliers(gpsTable)
         if gpsTable.shape[0] > 0:
             coords = pd.concat([
                 coords,
@@ -545,7 +547,7 @@ def summarize_gps(gps_dir_pattern, station_info = None, output_file = None, t1 =
                 ], ignore_index = True)
                                
         else:
-            print('No non-outliers remaining for gem {SN}')
+            print(f'No non-outliers remaining for gem {SN}')
     if station_info is not None:
         station_info = _get_station_info(station_info)
         network = []
-- 
2.43.0


From 8da07a670f0b0fb9329f374c4fa3c36143a30f89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:42 +0000
Subject: [PATCH 27/48] fix: files that start in the same second must not
 overwrite each other when renamed

---
 gemlog/gem_network.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/gemlog/gem_network.py b/gemlog/gem_network.py
index 78e32e7..e2966c3 100644
--- a/gemlog/gem_network.py
+++ b/gemlog/gem_network.py
@@ -328,6 +328,7 @@ def rename_files(infile_pattern, station_info, output_dir, output_format = 'msee
     infiles = glob.glob(infile_pattern)
     infiles.sort()
     assert len(infiles) > 0, 'No input files provided'
+    written = set() # names of the files written so far
     for i, infile in enumerate(infiles):
         st = obspy.read(infile)
         fileParts = infile.split('/')[-1].split('.')
@@ -353,6 +354,9 @@ def rename_files(infile_pattern, station_info, output_dir, output_format = 'msee
                            'loc':location, 'chan':'HDF', 'fmt':output_format}
         outfile_pattern = _fix_file_name_digits(outfile_pattern)
         output_file = outfile_pattern.format(**trace_info_dict)
+        if output_file in written: # as in convert, add hundredths of seconds
+            output_file = outfile_pattern.replace('{sec:02d}', '{sec:02d}_%02d' % (t1.microsecond//10000)).format(**trace_info_dict)
+        written.add(output_file)
         st.write(output_dir + '/' + output_file, format = output_format)
         print(str(i+1) + ' of ' + str(len(infiles)) + ': ' + infile + ', ' + output_file)
     return station_info
-- 
2.43.0


From b04031dd5acf144613b7bf2576f7e3e611149c8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:42 +0000
Subject: [PATCH 28/48] fix: merge_files_day must not mix channels whose names
 end alike, or read folders

---
 gemlog/gem_network.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/gemlog/gem_network.py b/gemlog/gem_network.py
index e2966c3..b3cfe05 100644
--- a/gemlog/gem_network.py
+++ b/gemlog/gem_network.py
@@ -365,18 +365,22 @@ def merge_files_day(infile_path, infile_pattern = '*', outfile_dir = 'merge_file
     if not os.path.isdir(outfile_dir):
         os.makedirs(outfile_dir) # makedirs vs mkdir means if gpspath = dir1/dir2, and dir1 doesn't exist, that dir1 will be created and then dir2
     infiles = glob.glob(infile_path + '/' + infile_pattern)
+    infiles = [infile for infile in infiles if os.path.isfile(infile)]
     infiles.sort()
     ## find unique year, month, day lists for all files
     cuts = [infile.split('/')[-1].split('.')[0].split('T')[0] + ',' + '.'.join(infile.split('/')[-1].split('.')[1:])
             for infile in infiles]
+    all_cuts = cuts
     cuts = _unique(cuts)
     days = [cut.split(',')[0] for cut in cuts]
     suffixes = [cut.split(',')[1] for cut in cuts]
     
     ## for each item, read all the files and 
-    for day, suffix in zip(days, suffixes):
+    for cut, day, suffix in zip(cuts, days, suffixes):
         print(day + ' ' + suffix)
-        x = obspy.read(infile_path + '/' + day + '*' + suffix)
+        x = obspy.Stream()
+        for infile in [infile for infile, infile_cut in zip(infiles, all_cuts) if infile_cut == cut]:
+            x += obspy.read(infile)
         x.merge(fill_value = 'latest', method = 1)
         x.write(outfile_dir + '/' + day + 'T00_00_00.' + suffix)
     return
-- 
2.43.0


From e6148dbc30a78f097943a5f7d85ac60cbdb5322e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:23:27 +0000
Subject: [PATCH 29/48] fix: the header lists the configuration and format of
 each file, not those of the first file for all

---
 gemlog/core.py | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/gemlog/core.py b/gemlog/core.py
index 2bda1f7..fa1e70d 100644
--- a/gemlog/core.py
+++ b/gemlog/core.py
@@ -559,13 +559,20 @@ def read_gem(path = 'raw', nums = np.arange(10000), SN = '', units = 'Pa', bitwe
         tr.stats.location = location # this may well be ''
         tr.stats.network = network # can be '' for now and set later
     ## add bitweight and config info to header
-    bitweight_info = get_bitweight_info(SN, config)
-    header = L['header']
-    for key in bitweight_info.keys():
-        L['header'][key] = bitweight_info[key]
-    for key in config.keys():
-        L['header'][key] = config[key]
-    L['header']['file_format_version'] = version
+    file_info = []
+    for fn, num_data_pts in zip(L['header'].file, L['header'].num_data_pts):
+        file_config, file_version = config, version # rejected files may not have a valid header
+        if num_data_pts > 0:
+            file_config = _read_config(fn)
+            if file_config['adc_range'] not in [0, 1]:
+                file_config = config
+            try:
+                file_version = _read_format_version(fn)
+            except Exception: # the file was readable as the version of the first file
+                pass
+        file_info.append({**get_bitweight_info(SN, file_config), **file_config, 'file_format_version': file_version})
+    for key in file_info[0].keys():
+        L['header'][key] = [info[key] for info in file_info]
 
     ## done processing
     if return_debug_output:
-- 
2.43.0


From 43bc37df3e4ab2806fe5058b5ad4e50a5c18739f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:49 +0000
Subject: [PATCH 30/48] fix: days end at midnight when the analysis does not
 start at midnight, so that no time is analysed twice

---
 gemlog/xcorr.py | 14 ++------------
 1 file changed, 2 insertions(+), 12 deletions(-)

diff --git a/gemlog/xcorr.py b/gemlog/xcorr.py
index 82bedc5..7da4e05 100644
--- a/gemlog/xcorr.py
+++ b/gemlog/xcorr.py
@@ -224,24 +224,14 @@ def loop_through_days(function, filenames, t1 = '1970-01-01', t2 = '9999-12-31',
     ## loop through days. be careful to avoid funny business with leap seconds.
     day_starts = [t1]
     while True:
-        new_time = (day_starts[-1]+86400+2).replace(hour=0, minute=0, second=0) # add 24 hours + 2 sec, then round down
+        new_time = (day_starts[-1]+86400+2).replace(hour=0, minute=0, second=0, microsecond=0) # add 24 hours + 2 sec, then round down
         if new_time < t2:
             day_starts.append(new_time)
         else:
             break
     day_starts = np.array(day_starts)
 
-    day_ends = [day_starts[0]+86400] # bug here; causes problems with part-day files. Only run full-day files.
-    #day_ends = [day_starts[0].replace(hour=0, minute=0, second=0, microsecond=0)] # this fix didn't work
-
-    while True:
-        new_time = (day_ends[-1]+86400+2).replace(hour=0, minute=0, second=0) # add 24 hours + 2 sec, then round down
-        if new_time < t2:
-            day_ends.append(new_time)
-        else:
-            day_ends.append(t2)
-            break
-    day_ends = np.array(day_ends)
+    day_ends = np.array(list(day_starts[1:]) + [t2]) # each day ends where the next one starts
 
     files_read = []
     output_list = []
-- 
2.43.0


From f153f8e699e554f04ec3508279f1a637347afbdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:49 +0000
Subject: [PATCH 31/48] fix: default upsample_ratio and overlap of
 xcorr_one_day are independent of each other

---
 gemlog/xcorr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gemlog/xcorr.py b/gemlog/xcorr.py
index 7da4e05..60e4652 100644
--- a/gemlog/xcorr.py
+++ b/gemlog/xcorr.py
@@ -304,7 +304,7 @@ def xcorr_one_day(st, args = {}):
     fh = args.get('fh') if args.get('fh') is not None else 40
     win_length_sec = args.get('win_length_sec') if args.get('win_length_sec') is not None else 5
     overlap = args.get('overlap') if args.get('overlap') is not None else 0
-    upsample_ratio = args.get('upsample_ratio') if args.get('overlap') is not None else 1
+    upsample_ratio = args.get('upsample_ratio') if args.get('upsample_ratio') is not None else 1
     _validate_inputs(fl, fh, win_length_sec, overlap, upsample_ratio)
 
     if upsample_ratio != 1:
-- 
2.43.0


From 6d48ffd36599adbea7e810b7215f98f24546bb38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:49 +0000
Subject: [PATCH 32/48] fix: spans of exactly one window are analysed, and gaps
 or missing channels do not discard or shift the lags of others

---
 gemlog/xcorr.py | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/gemlog/xcorr.py b/gemlog/xcorr.py
index 60e4652..cdf77d3 100644
--- a/gemlog/xcorr.py
+++ b/gemlog/xcorr.py
@@ -307,6 +307,9 @@ def xcorr_one_day(st, args = {}):
     upsample_ratio = args.get('upsample_ratio') if args.get('upsample_ratio') is not None else 1
     _validate_inputs(fl, fh, win_length_sec, overlap, upsample_ratio)
 
+    ## process the data on each side of a gap separately; pieces shorter than a window are of no use
+    st = obspy.Stream([tr for tr in st.split() if (tr.stats.npts + 0.5) * tr.stats.delta > win_length_sec])
+
     if upsample_ratio != 1:
         st = upsample_stream(st, args['upsample_ratio'])
         
@@ -316,6 +319,7 @@ def xcorr_one_day(st, args = {}):
     for tr in st:
         tr.data -= tr.data[0]
     st.filter('bandpass', freqmin = fl, freqmax = fh)
+    st.merge()
     output = apply_function_windows(st, xcorr_function, win_length_sec, overlap, args)
 
     ## reformat UTCDateTimes as string
@@ -388,14 +392,21 @@ def apply_function_windows(st, f, win_length_sec, overlap = 0.5, args = {}):
 """
     # f must input a stream and return a dict
     eps = 1e-6
-    t1 = st[0].stats.starttime
-    t2 = st[0].stats.endtime
+    if len(st) == 0:
+        return {'t_mid':np.array([])}
+    t1 = min([tr.stats.starttime for tr in st])
+    t2 = max([tr.stats.endtime for tr in st])
     data_length_sec = t2 - t1
     num_windows = 1 + int(np.ceil((data_length_sec - win_length_sec) / (win_length_sec * (1 - overlap)) - eps))
     output_dict = {'t_mid':[]}
     for i in range(num_windows):
-        win_start = t1 + i*(data_length_sec - win_length_sec) / (num_windows-1)
+        win_start = t1 + i*(data_length_sec - win_length_sec) / max(num_windows-1, 1)
         st_tmp = st.slice(win_start-eps, win_start + win_length_sec - eps, nearest_sample = False)
+        ## use only the traces that have data in the whole window
+        max_npts = max([tr.stats.npts for tr in st_tmp] + [0.98 * win_length_sec / st[0].stats.delta])
+        st_tmp = obspy.Stream([tr for tr in st_tmp if tr.stats.npts >= max_npts - 1 and not np.ma.is_masked(tr.data)])
+        if len(st_tmp) == 0:
+            continue
         win_dict = f(st_tmp, args)
         #if i == 0:
         #    output_dict = {key:[] for key in win_dict.keys()}
@@ -406,7 +417,7 @@ def apply_function_windows(st, f, win_length_sec, overlap = 0.5, args = {}):
         ## append data from this window to the output
         for key in win_dict.keys():
             if key not in output_dict.keys():
-                output_dict[key] = list(np.repeat(np.nan, i))
+                output_dict[key] = list(np.repeat(np.nan, len(output_dict['t_mid'])))
             output_dict[key].append(win_dict[key])
         ## if a field from the output is missing in this window's data, append nan as a placeholder
         for key in output_dict.keys():
-- 
2.43.0


From c966cda972e57971e2435e5933bfc30b5b91ebc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:49 +0000
Subject: [PATCH 33/48] fix: lags can be inverted when a station is missing
 from the first windows, and the locations table is left unchanged

---
 gemlog/xcorr.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/gemlog/xcorr.py b/gemlog/xcorr.py
index cdf77d3..862284b 100644
--- a/gemlog/xcorr.py
+++ b/gemlog/xcorr.py
@@ -137,6 +137,10 @@ def invert_for_slowness(xcorr_df, locations):
         if re.search('rms', key):
             data_short_IDs.append(key.split('_')[1])
             
+    if any([f'lag_{ID_1}_{ID_2}' not in xcorr_df.keys() for ID_1, ID_2 in zip(data_short_IDs, data_short_IDs[1:])]):
+        data_short_IDs.sort() # stations that are missing at first are not in the usual order
+
+    locations = locations.reset_index(drop = True) # a copy
     locations['ID'] = [f'{locations.network[i]}.{locations.station[i]}.{locations.location[i]}' for i in range(locations.shape[0])]
     keep_indices = np.where(np.isin(locations.ID, data_short_IDs))[0]
     locations = locations.iloc[keep_indices, :]
-- 
2.43.0


From 56eb7169c4551f04f5529721727f936316674994 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:07 +0000
Subject: [PATCH 34/48] fix: stations are correlated in the same order on days
 with and without gaps

---
 gemlog/xcorr.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/gemlog/xcorr.py b/gemlog/xcorr.py
index 862284b..3c9812f 100644
--- a/gemlog/xcorr.py
+++ b/gemlog/xcorr.py
@@ -324,6 +324,7 @@ def xcorr_one_day(st, args = {}):
         tr.data -= tr.data[0]
     st.filter('bandpass', freqmin = fl, freqmax = fh)
     st.merge()
+    st.sort() # merging puts the traces that have gaps first
     output = apply_function_windows(st, xcorr_function, win_length_sec, overlap, args)
 
     ## reformat UTCDateTimes as string
-- 
2.43.0


From f3a23cf613447a2cd4e6a4f59fae08a95d429e2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:48 +0000
Subject: [PATCH 35/48] fix: windows of traces that end a sample apart are cut
 to their common time and analysed

---
 gemlog/xcorr.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/gemlog/xcorr.py b/gemlog/xcorr.py
index 3c9812f..1bfff23 100644
--- a/gemlog/xcorr.py
+++ b/gemlog/xcorr.py
@@ -408,10 +408,11 @@ def apply_function_windows(st, f, win_length_sec, overlap = 0.5, args = {}):
         win_start = t1 + i*(data_length_sec - win_length_sec) / max(num_windows-1, 1)
         st_tmp = st.slice(win_start-eps, win_start + win_length_sec - eps, nearest_sample = False)
         ## use only the traces that have data in the whole window
-        max_npts = max([tr.stats.npts for tr in st_tmp] + [0.98 * win_length_sec / st[0].stats.delta])
-        st_tmp = obspy.Stream([tr for tr in st_tmp if tr.stats.npts >= max_npts - 1 and not np.ma.is_masked(tr.data)])
+        min_length_sec = 0.98 * win_length_sec - 2 * st[0].stats.delta
+        st_tmp = obspy.Stream([tr for tr in st_tmp if tr.stats.npts * tr.stats.delta >= min_length_sec and not np.ma.is_masked(tr.data)])
         if len(st_tmp) == 0:
             continue
+        st_tmp = st_tmp.slice(max([tr.stats.starttime for tr in st_tmp]), min([tr.stats.endtime for tr in st_tmp]))
         win_dict = f(st_tmp, args)
         #if i == 0:
         #    output_dict = {key:[] for key in win_dict.keys()}
-- 
2.43.0


From f2816fabec1f75a1a586af233b4b2fd945db3073 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:17 +0000
Subject: [PATCH 36/48] fix: gemconvert accepts its documented long options

---
 gemlog/gemconvert.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/gemlog/gemconvert.py b/gemlog/gemconvert.py
index 32e9573..b22789c 100755
--- a/gemlog/gemconvert.py
+++ b/gemlog/gemconvert.py
@@ -88,7 +88,10 @@ def main(argv = None):
 
     ## parse options selected by user
     try:
-        opts, args = getopt.getopt(argv,"hdti:s:x:c:o:f:l:p:",["inputdir=","serialnumber="])
+        opts, args = getopt.getopt(argv,"hdti:s:x:c:o:f:l:p:",
+                                   ["help", "debug", "test", "inputdir=", "serialnumbers=",
+                                    "exclude_serialnumbers=", "codesfile=", "outputdir=",
+                                    "format=", "length=", "parallel="])
     except getopt.GetoptError:
         print_call()
         sys.exit(2)
-- 
2.43.0


From d469ab3f212a99541870f6334a77f38d8b81bb88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:48 +0000
Subject: [PATCH 37/48] fix: gemconvert converts old loggers with .TXT files by
 default and ignores files that are not raw data

---
 gemlog/gemconvert.py | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/gemlog/gemconvert.py b/gemlog/gemconvert.py
index b22789c..bcfd4ca 100755
--- a/gemlog/gemconvert.py
+++ b/gemlog/gemconvert.py
@@ -3,7 +3,7 @@
 import sys # should always be available, doesn't need to be in "try"
 try:
     import numpy as np
-    import os, getopt, logging, platform
+    import os, getopt, logging, platform, fnmatch
     #import glob, traceback # apparently not needed anymore
     import gemlog
     from concurrent.futures import ProcessPoolExecutor
@@ -17,6 +17,20 @@ def find_SN(x):
     # find the serial number of a raw data file
     return x[9:13]
 
+def find_all_SN(inputdir, file_list):
+    # find the serial numbers of all the raw data files in a list, ignoring any other files
+    SN_list = []
+    for x in fnmatch.filter(file_list, 'FILE' + '[0-9]'*4 + '.???'):
+        SN = find_SN(x)
+        if SN == 'TXT': # old raw data files, which don't have the serial number in the file name
+            try:
+                SN = gemlog.core._read_SN(os.path.join(inputdir, x))
+            except gemlog.CorruptRawFile:
+                continue
+        if SN.isdigit():
+            SN_list.append(SN)
+    return unique(SN_list)
+
 def unique(list1): 
     unique, index = np.unique(list1, return_index=True)
     return sorted(unique)
@@ -150,8 +164,7 @@ def main(argv = None):
         sys.exit()
 
     if(len(SN_list) == 0): # if user does not provide SN_list, take unique SNs in order
-        SN_list = unique([find_SN(file_list[i]) for i in range(len(file_list))]) # set takes unique values
-        SN_list.sort()
+        SN_list = find_all_SN(inputdir, file_list)
     else: # if user provided SNs, keep the order, but take unique values
         SN_list = unique(SN_list)
 
-- 
2.43.0


From fd035e6b2760298cc56857829e6aa2f623ad7d14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:48 +0000
Subject: [PATCH 38/48] fix: a worker process of gemconvert that dies is
 reported

---
 gemlog/gemconvert.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/gemlog/gemconvert.py b/gemlog/gemconvert.py
index bcfd4ca..0e464ca 100755
--- a/gemlog/gemconvert.py
+++ b/gemlog/gemconvert.py
@@ -239,7 +239,11 @@ def main(argv = None):
             args_list = [[inputdir, SN, outputdir, output_format, output_length, network, station,
                           location] for i, (SN, network, station, location) in
                          enumerate(zip(SN_list, network_list, station_list, location_list))]
-            res = pool.map(convert_single_SN, args_list)
+            res = [pool.submit(convert_single_SN, args) for args in args_list]
+            for SN, result in zip(SN_list, res):
+                if result.exception() is not None:
+                    print(f'Fatal error in {SN}: {repr(result.exception())}')
+                    logging.error(f'Fatal error in {SN}: {repr(result.exception())}')
 
 if __name__ == "__main__":
    main(sys.argv[1:])
-- 
2.43.0


From ab2568d6b3cabd0cfe9a0c505ca149c3555c2bc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:12 +0000
Subject: [PATCH 39/48] fix: a failed write is not lost inside the miniSEED
 writer

obspy writes miniSEED through a ctypes callback, where an exception raised by
a failing write is printed and ignored: conversion went on and left a file with
a missing record. Encode in memory and write the file in one step.
---
 gemlog/core.py | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/gemlog/core.py b/gemlog/core.py
index fa1e70d..474d334 100644
--- a/gemlog/core.py
+++ b/gemlog/core.py
@@ -2,7 +2,7 @@ import pdb
 import warnings
 import numpy as np
 from numpy import nan, inf
-import os, glob, csv, time, scipy
+import os, glob, csv, time, scipy, io
 import pandas as pd
 with warnings.catch_warnings():
     warnings.simplefilter("ignore")
@@ -371,10 +371,23 @@ def _write_hourlong_mseed(p, hour_to_write, file_length_sec, bitweight, converte
             if(output_format.lower() == 'wav'):
                 write_wav(tr, filename = fn, path = convertedpath)
             else:
-                tr.write(convertedpath +'/'+ fn, format = output_format, encoding=10) # encoding 10 is Steim 1
+                _write_obspy(tr, convertedpath +'/'+ fn, output_format, encoding=10) # encoding 10 is Steim 1
     hour_to_write = hour_end
     return hour_to_write
 
+def _write_obspy(data, filename, output_format, **kwargs):
+    """
+    Write an obspy Trace or Stream. Obspy's miniSEED writer ignores errors that happen while writing to a
+    file (leaving out part of the data), so encode miniSEED in memory before writing it.
+    """
+    if output_format.lower() == 'mseed':
+        buffer = io.BytesIO()
+        data.write(buffer, format = output_format, **kwargs)
+        with open(filename, 'wb') as file:
+            file.write(buffer.getvalue())
+    else:
+        data.write(filename, format = output_format, **kwargs)
+
 def write_wav(tr, filename = None, path = '.', time_format = '%Y-%m-%dT%H_%M_%S'):
     """
     Write a trace as a .wav file. This function is needed because obspy's 
@@ -1615,8 +1628,8 @@ def _convert_one_file(input_filename, output_filename = None, require_gps = True
             
     if output_filename is None:
         output_filename = os.path.split(input_filename)[-1] + '.mseed'
-    if os.path.splitext(output_filename)[1] == '': # obspy cannot infer the format; use the default
-        L['data'].write(output_filename, format = 'MSEED')
+    if os.path.splitext(output_filename)[1].lower() in ['', '.mseed']: # default format
+        _write_obspy(L['data'], output_filename, 'MSEED')
     else:
         L['data'].write(output_filename)
     
-- 
2.43.0


From 2c5c33007335f87b530aaf5cd02f42ec10386d9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:12 +0000
Subject: [PATCH 40/48] fix: invert_for_slowness works for any selection of
 windows

The lags were looked up by label, so tables that had been filtered (e.g. by
consistency) or sorted failed or used other windows' lags.
---
 gemlog/xcorr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gemlog/xcorr.py b/gemlog/xcorr.py
index 1bfff23..6b3b562 100644
--- a/gemlog/xcorr.py
+++ b/gemlog/xcorr.py
@@ -171,7 +171,7 @@ def invert_for_slowness(xcorr_df, locations):
     backazimuth = np.zeros(n_windows)
     slowness = np.zeros(n_windows)
     for i in range(n_windows):
-        lags = np.array([xcorr_df[lag_key][i] for lag_key in lag_keys[:-1]])
+        lags = np.array([xcorr_df[lag_key].iloc[i] for lag_key in lag_keys[:-1]])
         slowness_vector = H @ lags
         backazimuth[i] = np.arctan2(-slowness_vector[0], -slowness_vector[1]) * 180/np.pi
         slowness[i] = np.sqrt(np.sum(slowness_vector**2))
-- 
2.43.0


From 521d44842a3023c055f9436f3c681116164dd0e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:12 +0000
Subject: [PATCH 41/48] fix: invert_for_slowness uses the station pairs the
 lags were computed for

When several stations are missing from some windows, the columns are not in
the usual station order and pairs from partial windows were used instead.
---
 gemlog/xcorr.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/gemlog/xcorr.py b/gemlog/xcorr.py
index 6b3b562..c95d20a 100644
--- a/gemlog/xcorr.py
+++ b/gemlog/xcorr.py
@@ -137,8 +137,10 @@ def invert_for_slowness(xcorr_df, locations):
         if re.search('rms', key):
             data_short_IDs.append(key.split('_')[1])
             
-    if any([f'lag_{ID_1}_{ID_2}' not in xcorr_df.keys() for ID_1, ID_2 in zip(data_short_IDs, data_short_IDs[1:])]):
-        data_short_IDs.sort() # stations that are missing at first are not in the usual order
+    ## stations that are missing at first are not in the usual (sorted) order
+    sorted_IDs = sorted(data_short_IDs)
+    if all([f'lag_{ID_1}_{ID_2}' in xcorr_df.keys() for ID_1, ID_2 in zip(sorted_IDs, sorted_IDs[1:])]):
+        data_short_IDs = sorted_IDs
 
     locations = locations.reset_index(drop = True) # a copy
     locations['ID'] = [f'{locations.network[i]}.{locations.station[i]}.{locations.location[i]}' for i in range(locations.shape[0])]
-- 
2.43.0


From 32fb26c5b614f4dc04987a25439db7c0e1b1f047 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:12 +0000
Subject: [PATCH 42/48] fix: ims_noise accepts its documented model 'medium'

---
 gemlog/gemlog_aux.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gemlog/gemlog_aux.py b/gemlog/gemlog_aux.py
index d624feb..d680f4b 100644
--- a/gemlog/gemlog_aux.py
+++ b/gemlog/gemlog_aux.py
@@ -299,7 +299,7 @@ def ims_noise(model = 'low', freq = None, spectype = 'power', freq_min = None, f
     freq_in = noise_spec['f']
     if model.lower() in ['low', 'min']:
         power_in = 10**noise_spec['min']
-    elif model.lower() == 'med':
+    elif model.lower() in ['med', 'medium']:
         power_in = 10**noise_spec['med']
     elif model.lower() in ['high', 'hi', 'max']:
         power_in = 10**noise_spec['max']
-- 
2.43.0


From 7c5e0938bf0f3b629a07f04a8ce143358bbd8bcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:12 +0000
Subject: [PATCH 43/48] fix: integrate noise spectra accurately

quad does not converge on the many-knot spline (errors up to 4% and an
IntegrationWarning); the spline can be integrated exactly.
---
 gemlog/gemlog_aux.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gemlog/gemlog_aux.py b/gemlog/gemlog_aux.py
index d680f4b..cd3d028 100644
--- a/gemlog/gemlog_aux.py
+++ b/gemlog/gemlog_aux.py
@@ -316,7 +316,7 @@ def _noise_spectrum_helper(freq_in, power_in, freq_out, spectype, freq_min, freq
     spec_function = scipy.interpolate.CubicSpline(freq_in, power_in, extrapolate = False)
     power = spec_function(freq_out)
     if (freq_min is not None) and (freq_max is not None):
-        noise = scipy.integrate.quad(spec_function, freq_min, freq_max)[0] # 'quad' outputs are the estimated integral and error bar
+        noise = float(spec_function.integrate(freq_min, freq_max)) # exact; nan if the band exceeds the available frequencies
     else:
         noise = np.nan
 
-- 
2.43.0


From f39cf5ed73bf47f45bca3264be07916e1ea83e42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:12 +0000
Subject: [PATCH 44/48] fix: calc_channel_stats always failed

It concatenated a list to a data frame. Also count the time covered by each file
(not the number of files) including files that begin or end at the edge of the
window, and leave the database unmodified.
---
 gemlog/gemlog_aux.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/gemlog/gemlog_aux.py b/gemlog/gemlog_aux.py
index cd3d028..e3145c6 100644
--- a/gemlog/gemlog_aux.py
+++ b/gemlog/gemlog_aux.py
@@ -183,23 +183,23 @@ def calc_channel_stats(DB, t1, t2):
     #t2 = '2020-04-24T20:00:00'
     t1 = obspy.core.UTCDateTime(t1)
     t2 = obspy.core.UTCDateTime(t2)
-    numHour = (t2 - t1)/3600.0
-    DB.t1 = DB.t1.apply(T)
-    DB.t2 = DB.t2.apply(T)
-    DB.goodData = (DB.amp_HP > 0.5) & (DB.amp_HP < 2e4) & ((DB.t2 - DB.t1) > 3598) & ((DB.t2 - DB.t1) < 3602)
-    DB.anyData = (DB.amp_HP > 0) 
+    DB_t1 = DB.t1.apply(T)
+    DB_t2 = DB.t2.apply(T)
+    duration = (DB_t2 - DB_t1).astype(float)
+    goodData = np.array((DB.amp_HP > 0.5) & (DB.amp_HP < 2e4) & (duration > 3598) & (duration < 3602))
+    anyData = np.array(DB.amp_HP > 0)
+    ## proportion of the time window that each file covers
+    covered = np.array([max(0, min(t2, file_t2) - max(t1, file_t1)) for file_t1, file_t2 in zip(DB_t1, DB_t2)]) / (t2 - t1)
     out = []
     for sta in DB.station.unique():
-        w = np.where((DB.station == sta) & (DB.t1 > t1) & (DB.t2 < t2))[0]
+        w = np.where(np.array(DB.station == sta) & (covered > 0))[0]
         if(len(w) == 0):
             continue
         else:
             q1 = np.quantile(np.array(DB.amp_HP)[w], 0.25)
             q3 = np.quantile(np.array(DB.amp_HP)[w], 0.75)
-            out = pd.concat([out,
-                             pd.DataFrame([[sta, np.sum(np.array(DB.goodData)[w])/numHour, np.sum(np.array(DB.anyData)[w])/numHour, q1, q3]], columns = ['station', 'goodData', 'anyData', 'q1', 'q3'])])
-    out = pd.concat(out)
-    return(out)
+            out.append([sta, np.sum((covered * goodData)[w]), np.sum((covered * anyData)[w]), q1, q3])
+    return pd.DataFrame(out, columns = ['station', 'goodData', 'anyData', 'q1', 'q3'])
 
 _noise_path = os.path.join(os.path.dirname(__file__), "data", "noise")
 
-- 
2.43.0


From 635f71ba26d346a96e844561f41e30a4eb67d4e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:43 +0000
Subject: [PATCH 45/48] fix: check_lags imported a function that obspy no
 longer has, and never filtered its data

---
 gemlog/gemlog_aux.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/gemlog/gemlog_aux.py b/gemlog/gemlog_aux.py
index e3145c6..6a83e98 100644
--- a/gemlog/gemlog_aux.py
+++ b/gemlog/gemlog_aux.py
@@ -32,11 +32,13 @@ def check_discontinuity(files):
 def check_lags(DB, winlength = 1000, fl = 0.5, fh = 20, maxshift = 10, verbose = False):
     stations = DB.station.unique()
     nsta = len(stations)
-    from obspy.signal.cross_correlation import xcorr, correlate, xcorr_max
+    from obspy.signal.cross_correlation import correlate, xcorr_max
     st = obspy.Stream()
-    st.filter('bandpass', freqmin=fl, freqmax = fh)
     for fn in DB.filename:
         st += obspy.read(fn)
+    st.merge()
+    st = st.split() # avoid masked arrays
+    st.filter('bandpass', freqmin=fl, freqmax = fh)
     t0 = min(DB.t1).replace(minute=0, second=0, microsecond=0)
     t = []
     lag = np.zeros([nsta, 1])
-- 
2.43.0


From 4b771a74416c874ff6d06fc80c76179811556ba6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:54 +0000
Subject: [PATCH 46/48] fix: lags that miss closure by up to N samples per pair
 were flagged as consistent

---
 gemlog/xcorr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gemlog/xcorr.py b/gemlog/xcorr.py
index c95d20a..f0ec550 100644
--- a/gemlog/xcorr.py
+++ b/gemlog/xcorr.py
@@ -360,7 +360,7 @@ def xcorr_function(st, args):
         shift, value = xcorr_max(correlate(tr1.data, tr2.data, int(np.round(maxshift_seconds / dt))), abs_max = False)
         output_dict[f'lag_{pair_name}'] = shift * dt
         output_dict[f'r_{pair_name}'] = value
-        consistency += shift/len(st)
+        consistency += shift
         output_dict['mean_coef'] += value/len(st)
     ## consistency: allow up to one sample error per cross-correlation
     output_dict['consistency'] = np.abs(consistency) <= len(st)
-- 
2.43.0


From 834d6dea6b43e1ad2af1d948029262f6f7bfb756 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:54 +0000
Subject: [PATCH 47/48] fix: state-of-health records were given times of
 rejected files

---
 gemlog/core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gemlog/core.py b/gemlog/core.py
index 474d334..0bd32c8 100644
--- a/gemlog/core.py
+++ b/gemlog/core.py
@@ -1308,9 +1308,9 @@ def _assign_times(L):
         print('Problem between ' + fnList[0] + '-' + fnList[-1] + '. Break between recording periods? Corrupt files?')
         breaks = None
     piecewiseTimeFit = L['header']
-    metadata_t = _apply_segments(L['metadata']['millis'], piecewiseTimeFit)
+    good_fits = piecewiseTimeFit.loc[piecewiseTimeFit['drift_deg1'] != 0, :].reset_index(drop = True) # rejected files have none
+    metadata_t = _apply_segments(L['metadata']['millis'], good_fits)
     ## metadata before the first or after the last sample of their file: use the nearest file's fit
-    good_fits = piecewiseTimeFit.loc[piecewiseTimeFit['drift_deg1'] != 0, :]
     for i in np.where(np.isnan(metadata_t))[0]:
         millis = L['metadata']['millis'].iloc[i]
         distance = np.maximum(good_fits['start_ms'] - millis, millis - good_fits['end_ms'])
-- 
2.43.0


From 56fa1a90b578a83787e610ef570df88ae5e1623f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:23 +0000
Subject: [PATCH 48/48] fix: station tables with an entirely empty network or
 location column were refused

---
 gemlog/gem_network.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gemlog/gem_network.py b/gemlog/gem_network.py
index b3cfe05..d2941c5 100644
--- a/gemlog/gem_network.py
+++ b/gemlog/gem_network.py
@@ -191,8 +191,8 @@ def _get_station_info(station_info):
     if station_info['elevation'].dtype == 'str':
         station_info['elevation'] = station_info['elevation'].replace('', 'nan').astype('float')
         
-    station_info.loc[station_info.location.isna(), 'location'] = ''
-    station_info.loc[station_info.network.isna(), 'network'] = ''
+    for key in ['network', 'location']: # an entirely empty column is numeric
+        station_info[key] = station_info[key].astype('object').fillna('')
     station_info.loc[station_info.elevation.isna(), 'elevation'] = -9999
     return station_info
 
-- 
2.43.0

