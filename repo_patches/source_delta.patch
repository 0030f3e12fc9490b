From 63bbc3bf34d9f2566a91e548abbd138fdc46f7ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:57 +0000
Subject: [PATCH 01/43] fix: position gmx reader correctly in files shorter
 than its header buffer

The seek back to the start of the data assumed that a full buffer was read,
so a file with only a few values after its header was misread.
---
 strata/dataformats/gmx_flow_version_1/read.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/strata/dataformats/gmx_flow_version_1/read.py b/strata/dataformats/gmx_flow_version_1/read.py
index 692be0f..06917bd 100644
--- a/strata/dataformats/gmx_flow_version_1/read.py
+++ b/strata/dataformats/gmx_flow_version_1/read.py
@@ -79,7 +79,7 @@ def read_header(fp):
 
             if pos != -1:
                 header_str += buf[:pos].decode("ascii")
-                offset = buf_size - pos - 1
+                offset = len(buf) - pos - 1
                 fp.seek(-offset, 1)
                 break
             else:
-- 
2.43.0


From 08628e97a23a8098c924f85f95c26e79ca03a953 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:57 +0000
Subject: [PATCH 02/43] fix: reject a gmx file which ends inside of its header

The header search never stopped at the end of the file.
---
 strata/dataformats/gmx_flow_version_1/read.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/strata/dataformats/gmx_flow_version_1/read.py b/strata/dataformats/gmx_flow_version_1/read.py
index 06917bd..c5980a7 100644
--- a/strata/dataformats/gmx_flow_version_1/read.py
+++ b/strata/dataformats/gmx_flow_version_1/read.py
@@ -75,6 +75,9 @@ def read_header(fp):
         while True:
             buf = fp.read(buf_size)
 
+            if not buf:
+                raise ValueError("file ended inside of its header")
+
             pos = buf.find(b'\0')
 
             if pos != -1:
-- 
2.43.0


From 641c6abd4f047be1ceb345cff842faf9bd1bb33f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:57 +0000
Subject: [PATCH 03/43] fix: reject a gmx file with less data than its header
 declares

A field cut to a single value was broadcast to all bins.
---
 strata/dataformats/gmx_flow_version_1/read.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/strata/dataformats/gmx_flow_version_1/read.py b/strata/dataformats/gmx_flow_version_1/read.py
index c5980a7..74f8224 100644
--- a/strata/dataformats/gmx_flow_version_1/read.py
+++ b/strata/dataformats/gmx_flow_version_1/read.py
@@ -48,11 +48,19 @@ def read_values(fp, num_values, fields):
         'V': np.float32,
     }
 
-    return {
+    data = {
         l: np.fromfile(fp, dtype=dtypes[l], count=num_values)
         for l in fields
     }
 
+    for l, values in data.items():
+        if len(values) != num_values:
+            raise ValueError(
+                "expected {} values of field '{}' but the file has {}".format(
+                    num_values, l, len(values)))
+
+    return data
+
 def read_header(fp):
     """Read header information and forward the pointer to the data."""
 
-- 
2.43.0


From 0db4cf99d7fc3ffa0b5387bde31815220a9cf500 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:57 +0000
Subject: [PATCH 04/43] fix: do not guess the simple format for a file which
 could not be read

A passing read error (or interrupt) while guessing the format made a gmx
file be read as raw floats without any error.
---
 strata/dataformats/read.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/strata/dataformats/read.py b/strata/dataformats/read.py
index 136188a..5d810d3 100644
--- a/strata/dataformats/read.py
+++ b/strata/dataformats/read.py
@@ -32,7 +32,7 @@ def guess_read_module(filename):
                 return formats.gmx_flow_version_1.main
             else:
                 return formats.simple.main
-    except:
+    except FileNotFoundError:
         return formats.simple.main
 
 
-- 
2.43.0


From 824d31f1f5f3b4d13bdb1d4a859c4e165d818e60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:57 +0000
Subject: [PATCH 05/43] fix: do not read a gmx file as a simple file while its
 first bytes arrive

A frame which was empty when its format was guessed but complete when it
was read was converted from raw floats without any error.
---
 strata/dataformats/read.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/strata/dataformats/read.py b/strata/dataformats/read.py
index 5d810d3..1fcd425 100644
--- a/strata/dataformats/read.py
+++ b/strata/dataformats/read.py
@@ -28,7 +28,10 @@ def guess_read_module(filename):
         with open(filename, "rb") as fp:
             buf = fp.read(100)
 
-            if buf.startswith(b"FORMAT GMX_FLOW_1") or buf.startswith(b"FORMAT GMX_FLOW_2"):
+            # A file which is still being written can be cut inside of the
+            # format marker: it must not be taken for a simple file.
+            if buf.startswith(b"FORMAT GMX_FLOW_1") or buf.startswith(b"FORMAT GMX_FLOW_2") \
+                    or b"FORMAT GMX_FLOW_".startswith(buf):
                 return formats.gmx_flow_version_1.main
             else:
                 return formats.simple.main
-- 
2.43.0


From 61524b792c0a017c1e486ec96a1e8b4b62367f8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:57 +0000
Subject: [PATCH 06/43] fix: report failed writes of gmx data

ndarray.tofile ignores errors when it closes its buffered stream, so a
full disk left a short file behind without an error.
---
 strata/dataformats/gmx_flow_version_1/write.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/strata/dataformats/gmx_flow_version_1/write.py b/strata/dataformats/gmx_flow_version_1/write.py
index 4195809..bc5baf0 100644
--- a/strata/dataformats/gmx_flow_version_1/write.py
+++ b/strata/dataformats/gmx_flow_version_1/write.py
@@ -45,7 +45,7 @@ def write_data(path, data, info, check_label='M'):
         )
 
         for vs in output_data:
-            vs.tofile(fp)
+            fp.write(vs.tobytes())
 
 def write_header(fp, shape, spacing, origin, num_elements):
     fp.write("FORMAT GMX_FLOW_1\n".encode())
-- 
2.43.0


From ab4a3588f24995ded72f2a0f2686132eb2802ce1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:57 +0000
Subject: [PATCH 07/43] fix: report failed writes of simple binary data

ndarray.tofile ignores errors when it closes its buffered stream, so a
full disk left a short file behind without an error.
---
 strata/dataformats/simple/write.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/strata/dataformats/simple/write.py b/strata/dataformats/simple/write.py
index 1135f33..65aa1f6 100644
--- a/strata/dataformats/simple/write.py
+++ b/strata/dataformats/simple/write.py
@@ -20,7 +20,8 @@ def write_data(path, data, binary=True):
     """
 
     def write_binsimple():
-        save_data.tofile(path)
+        with open(path, 'wb') as fp:
+            fp.write(save_data.tobytes())
 
     def write_plainsimple():
         header = ' '.join(fields_ordered)
-- 
2.43.0


From caef81f9b7176b56aaa06f3a1042474c0e4c2c73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:57 +0000
Subject: [PATCH 08/43] fix: write the impact header for every spreading
 collection

The flag was never reset, so only the first collection of a process got
the impact time and column legend.
---
 strata/spreading/collect.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/strata/spreading/collect.py b/strata/spreading/collect.py
index d7ae38e..cda7bb7 100644
--- a/strata/spreading/collect.py
+++ b/strata/spreading/collect.py
@@ -109,6 +109,7 @@ def collect(base, **kwargs):
         progress.start()
 
     pbc_info = init_periodic_info()
+    write_spreading.impact = False
 
     for i, (data, info, meta) in enumerate(read_from_files(*files)):
         flow = FlowData(data, info=info)
-- 
2.43.0


From 6bdf62621887713b3a1995ff1adbe43522fb3c0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:57 +0000
Subject: [PATCH 09/43] fix: allow the output directory to appear while it is
 being created

Two commands with a common new output directory could fail.
---
 strata/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/strata/utils.py b/strata/utils.py
index 40373f2..a402de5 100644
--- a/strata/utils.py
+++ b/strata/utils.py
@@ -261,7 +261,7 @@ def prepare_path(func):
             if directory == "":
                 directory = "."
             if not os.path.exists(directory):
-                os.makedirs(directory)
+                os.makedirs(directory, exist_ok=True)
 
             return directory, filename
 
-- 
2.43.0


From e6856bfba61295e7b6b5aeb4666205a4053a23c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:57 +0000
Subject: [PATCH 10/43] fix: do not unpack the result of collect_interfaces

The function returns nothing, so `strata interface collect` always ended
with an error after its work was done.
---
 strata/strata.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/strata/strata.py b/strata/strata.py
index 0c7439a..7be1845 100644
--- a/strata/strata.py
+++ b/strata/strata.py
@@ -495,7 +495,7 @@ def interface_collect_cli(base, output, **kwargs):
 
     set_none_to_inf(kwargs)
     if kwargs['recenter'] == 'off': kwargs['recenter'] = None
-    xs, ys = collect_interfaces(base, output, **kwargs)
+    collect_interfaces(base, output, **kwargs)
 
 
 # Interface viewing wrapper
-- 
2.43.0


From 483d86b32963fbd05ad3f13d9eb4904a9c5c258d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:57 +0000
Subject: [PATCH 11/43] fix: average does not fail at its end when quiet

---
 strata/average.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/strata/average.py b/strata/average.py
index 6d18641..bbeb7b6 100644
--- a/strata/average.py
+++ b/strata/average.py
@@ -175,7 +175,8 @@ def average(base, output, group=1, rolling=False, **kwargs):
         if not quiet:
             progress.update(i+1)
 
-    progress.finish()
+    if not quiet:
+        progress.finish()
 
 
 def recenter_maps(data_maps, recenter_values):
-- 
2.43.0


From 64d2db56888597df94dd02f078ce3b7fc66a45da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:57 +0000
Subject: [PATCH 12/43] fix: save averaged interfaces

The output function was given a Series without the named coordinates that
it reads, so saving failed after the previous output was moved away.
---
 strata/interface/view.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/strata/interface/view.py b/strata/interface/view.py
index 60f2f82..58182ad 100644
--- a/strata/interface/view.py
+++ b/strata/interface/view.py
@@ -82,7 +82,8 @@ def view_interfaces(base, average=1, save_xvg='', **kwargs):
             continue
 
         if save_xvg != '':
-            write_interface_data(fnout, interface, fngroup, kwargs)
+            coords = {'X': interface.values, 'Y': interface.index.values}
+            write_interface_data(fnout, coords, fngroup, kwargs)
 
         if save_fig != None:
             kwargs['save_fig'] = next(fnfig)
-- 
2.43.0


From 8e576fff63d7a34a567108c595a959261c0ec285 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:23 +0000
Subject: [PATCH 13/43] fix: warn about spreading data which could not be read

A read error made the file be parsed again as a Grace project, which for a
plain file silently gave no data at all.
---
 strata/spreading/view.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/strata/spreading/view.py b/strata/spreading/view.py
index cde7325..e2c60fd 100644
--- a/strata/spreading/view.py
+++ b/strata/spreading/view.py
@@ -250,6 +250,8 @@ def read_spreading_data(*files):
 
         try:
             series = read_plain_file(filename)
+        except OSError:
+            raise
         except Exception:
             series = read_xvg_file(filename)
 
-- 
2.43.0


From 314911c0b2805c6569d5909a4de1a3e72c00ac93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:01 +0000
Subject: [PATCH 14/43] fix: let interrupts through the remaining bare except
 clauses

---
 droplets/flow.py                  | 2 +-
 droplets/sample.py                | 6 +++---
 strata/average.py                 | 2 +-
 strata/dataformats/simple/read.py | 2 +-
 strata/interface/collect.py       | 2 +-
 strata/sample_average.py          | 4 ++--
 strata/spreading/collect.py       | 2 +-
 strata/spreading/view.py          | 2 +-
 8 files changed, 11 insertions(+), 11 deletions(-)

diff --git a/droplets/flow.py b/droplets/flow.py
index c118a6e..d918a5e 100644
--- a/droplets/flow.py
+++ b/droplets/flow.py
@@ -346,7 +346,7 @@ class FlowData(object):
             if None in [nx, ny, dx, dy]:
                 raise ValueError
 
-        except:
+        except Exception:
             return None
 
         return nx * dx, ny * dy
diff --git a/droplets/sample.py b/droplets/sample.py
index 35747ae..7db8781 100644
--- a/droplets/sample.py
+++ b/droplets/sample.py
@@ -137,7 +137,7 @@ def sample_viscous_dissipation(flow, viscosity,
 
     try:
         nx, ny = [int(v) for v in flow.shape]
-    except:
+    except Exception:
         raise ValueError(
                 "the shape of the flow object is not correctly set "
                 "(is {!r}, expected (int, int))".format(flow.shape)
@@ -145,7 +145,7 @@ def sample_viscous_dissipation(flow, viscosity,
 
     try:
         dx, dy = [float(v) for v in flow.spacing]
-    except:
+    except Exception:
         raise ValueError(
                 "the spacing of the flow object is not correctly set"
                 "(is {!r}, expected (float, float))".format(flow.spacing)
@@ -251,7 +251,7 @@ def sample_flow_angle(flow, flow_labels=['U', 'V'], mean=False, weight=None):
             try:
                 us *= flow.data[weight]
                 vs *= flow.data[weight]
-            except:
+            except Exception:
                 raise ValueError(
                         "Weight label {!r} was not found in the system" \
                         .format(weight)
diff --git a/strata/average.py b/strata/average.py
index bbeb7b6..fe6cdc1 100644
--- a/strata/average.py
+++ b/strata/average.py
@@ -89,7 +89,7 @@ def average(base, output, group=1, rolling=False, **kwargs):
         if xlim[0] != None or xlim[1] != None \
                 or ylim[0] != None or ylim[1] != None:
             cut_x_or_y = True
-    except:
+    except Exception:
         raise ValueError("`xlim` or `ylim` was not a 2-tuple")
 
     combine = kwargs.pop('combine', (None, None))
diff --git a/strata/dataformats/simple/read.py b/strata/dataformats/simple/read.py
index 73758c4..17813e3 100644
--- a/strata/dataformats/simple/read.py
+++ b/strata/dataformats/simple/read.py
@@ -101,7 +101,7 @@ def calc_information(X, Y):
 
             try:
                 return (x1 - x0) / (n - 1)
-            except:
+            except Exception:
                 return 0.0
 
         dx = calc_1d(X, nx)
diff --git a/strata/interface/collect.py b/strata/interface/collect.py
index d419846..8bb0d5c 100644
--- a/strata/interface/collect.py
+++ b/strata/interface/collect.py
@@ -251,7 +251,7 @@ def fill_pbc_info_for_empty_y_values(pbc_info_per_y):
         first = 0
         while (pbc_info_per_y[first] == None):
             first += 1
-    except:
+    except IndexError:
         pbc_info = init_periodic_info()
         pbc_info_per_y = [pbc_info] * len(pbc_info_per_y)
     else:
diff --git a/strata/sample_average.py b/strata/sample_average.py
index 660ce81..3464bc7 100644
--- a/strata/sample_average.py
+++ b/strata/sample_average.py
@@ -144,7 +144,7 @@ def sample_average_files(base, labels, output=None, sum=False, dt=1.,
                     if std != None:
                         try:
                             fp.write(" %g" % std[-1])
-                        except:
+                        except TypeError:
                             pass
 
                 fp.write('\n')
@@ -164,7 +164,7 @@ def sample_average_files(base, labels, output=None, sum=False, dt=1.,
             try:
                 std = np.std(sampled_values[i])
                 print(l, value, std)
-            except:
+            except Exception:
                 print(l, np.mean(sampled_values[i]))
 
     return times, sampled_values
diff --git a/strata/spreading/collect.py b/strata/spreading/collect.py
index cda7bb7..9305167 100644
--- a/strata/spreading/collect.py
+++ b/strata/spreading/collect.py
@@ -341,7 +341,7 @@ def write_header(output_path, input_base, kwargs):
 
         try:
             version = strata.strata.version
-        except:
+        except Exception:
             version = "UNKNOWN"
 
         header = (
diff --git a/strata/spreading/view.py b/strata/spreading/view.py
index e2c60fd..a1a8e83 100644
--- a/strata/spreading/view.py
+++ b/strata/spreading/view.py
@@ -290,7 +290,7 @@ def write_spreading_data(path, all_series):
 
             try:
                 version = strata.strata.version
-            except:
+            except Exception:
                 version = "UNKNOWN"
 
             header = (
-- 
2.43.0


From 8b94cea17bd477d60a76bb6db5ed607649e6d5d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:13 +0000
Subject: [PATCH 15/43] fix: report failed reads of simple binary data

---
 strata/dataformats/simple/read.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/strata/dataformats/simple/read.py b/strata/dataformats/simple/read.py
index 17813e3..e4c9845 100644
--- a/strata/dataformats/simple/read.py
+++ b/strata/dataformats/simple/read.py
@@ -143,7 +143,11 @@ def read_binsimple(filename):
     def read_file(filename):
         # Fixed field order of format
         fields = ['X', 'Y', 'N', 'T', 'M', 'U', 'V']
-        raw_data = np.fromfile(filename, dtype='float32')
+
+        # Do not let numpy read the file: it stops without a report if
+        # an error occurs, with only a part of the data.
+        with open(filename, 'rb') as fp:
+            raw_data = np.frombuffer(fp.read(), dtype='float32').copy()
 
         # Unpack into dictionary
         data = {}
-- 
2.43.0


From 58db4a5fcf967fc0474090ffdb6df492a4af8c8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:33 +0000
Subject: [PATCH 16/43] fix: warn when memory runs out while reading spreading
 data

---
 strata/spreading/view.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/strata/spreading/view.py b/strata/spreading/view.py
index a1a8e83..d70c665 100644
--- a/strata/spreading/view.py
+++ b/strata/spreading/view.py
@@ -250,7 +250,7 @@ def read_spreading_data(*files):
 
         try:
             series = read_plain_file(filename)
-        except OSError:
+        except (OSError, MemoryError):
             raise
         except Exception:
             series = read_xvg_file(filename)
-- 
2.43.0


From 0786e19a6bf4d19f66bf73ce79812a4f1005b158 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:51 +0000
Subject: [PATCH 17/43] fix: close a figure when it is done or has failed

An interrupted or failed save left the graph on the current figure, and a figure
of a given size stayed the current one: the next graph was drawn on top of it, or
in its size.
---
 strata/utils.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/strata/utils.py b/strata/utils.py
index a402de5..f39b4f2 100644
--- a/strata/utils.py
+++ b/strata/utils.py
@@ -324,7 +324,7 @@ def decorate_graph(func):
 
     import matplotlib.pyplot as plt
 
-    def graph_wrapper(*args, **kwargs):
+    def draw_graph(*args, **kwargs):
         def pop_figure_kwargs(kwargs):
             key_defaults = (
                     (['title', 'xlabel', 'ylabel'], ''),
@@ -401,11 +401,19 @@ def decorate_graph(func):
         if fargs['show']:
             plt.show()
 
-        if fargs['clf']:
-            plt.clf()
-
         return None
 
+    def graph_wrapper(*args, **kwargs):
+        clf = kwargs.get('clf', True)
+
+        try:
+            return draw_graph(*args, **kwargs)
+        finally:
+            # Leave nothing behind, not even the figure size, for the next
+            # graph to be drawn on
+            if clf:
+                plt.close()
+
     return graph_wrapper
 
 
-- 
2.43.0


From a46baa1b9e235051ca1c1806b981f3475a5c61a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:52 +0000
Subject: [PATCH 18/43] fix: use the colour map of a graph for that graph

It was only set after the graph was drawn, as the default for graphs drawn later
on in the same session.
---
 strata/utils.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/strata/utils.py b/strata/utils.py
index f39b4f2..e50b258 100644
--- a/strata/utils.py
+++ b/strata/utils.py
@@ -342,6 +342,13 @@ def decorate_graph(func):
             return fargs
 
         fargs = pop_figure_kwargs(kwargs)
+
+        if fargs['colormap'] != None:
+            try:
+                plt.rc('image', cmap=fargs['colormap'])
+            except ValueError as err:
+                print(err)
+
         func(*args, **kwargs)
 
         plt.title(fargs['title'])
@@ -358,12 +365,6 @@ def decorate_graph(func):
         plt.xlim(fargs['xlim'])
         plt.ylim(fargs['ylim'])
 
-        if fargs['colormap'] != None:
-            try:
-                plt.set_cmap(fargs['colormap'])
-            except ValueError as err:
-                print(err)
-
         if fargs['colorbar']:
             from mpl_toolkits.axes_grid1 import make_axes_locatable
 
@@ -407,7 +408,9 @@ def decorate_graph(func):
         clf = kwargs.get('clf', True)
 
         try:
-            return draw_graph(*args, **kwargs)
+            # Settings made for this graph, like its colour map, are its own
+            with plt.rc_context():
+                return draw_graph(*args, **kwargs)
         finally:
             # Leave nothing behind, not even the figure size, for the next
             # graph to be drawn on
-- 
2.43.0


From 1be34805c8724e9dead04389415643fe6d6ad1ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:31 +0000
Subject: [PATCH 19/43] fix: periodic boundary of systems which do not begin at
 x = 0

The wet stretch search and the unwrapping of edges took the boundary to
be at x = 0 whatever the origin of the map. Measure from the beginning
of the system instead.
---
 droplets/interface.py       | 11 ++++++++---
 strata/interface/collect.py |  8 +++++---
 strata/spreading/collect.py | 15 ++++++++++++---
 3 files changed, 25 insertions(+), 9 deletions(-)

diff --git a/droplets/interface.py b/droplets/interface.py
index fe6baa6..0e66b06 100644
--- a/droplets/interface.py
+++ b/droplets/interface.py
@@ -290,12 +290,17 @@ def get_interface(flow, label, **kwargs):
         # the data from each side to the other and adjusting the positions.
         # This means that we can walk through the system and assert that
         # all bins within the cutoff radius are included, even if they are
-        # on the other side of the periodic boundary.
-        left_edge_indices = np.where(data[xlabel] <= cutoff_radius)
+        # on the other side of the periodic boundary. The system does not
+        # have to begin at x = 0.
+        xbegin = np.min(data[xlabel]) - 0.5*dx
+
+        left_edge_indices = np.where(data[xlabel] <= xbegin + cutoff_radius)
         left_pbc_data = data[left_edge_indices]
         left_pbc_data[xlabel] += box_x
 
-        right_edge_indices = np.where(data[xlabel] >= box_x - cutoff_radius)
+        right_edge_indices = np.where(
+            data[xlabel] >= xbegin + box_x - cutoff_radius
+        )
         right_pbc_data = data[right_edge_indices]
         right_pbc_data[xlabel] -= box_x
 
diff --git a/strata/interface/collect.py b/strata/interface/collect.py
index 8bb0d5c..6220593 100644
--- a/strata/interface/collect.py
+++ b/strata/interface/collect.py
@@ -115,9 +115,11 @@ def get_interface_coordinates(flow, label, pbc_info_per_y, yindex_data,
     xs_right = flow.data[xl][right]
 
     box_x, _ = flow.size()
+    dx, _ = flow.spacing
+    xbegin = np.min(flow.data[xl]) - 0.5*dx
 
     interface, pbc_info_per_y, yindex_data = update_interface_with_pbc_info(
-        ys, xs_left, xs_right, box_x, pbc_info_per_y, yindex_data
+        ys, xs_left, xs_right, box_x, pbc_info_per_y, yindex_data, xbegin
     )
 
     xs = interface['X']
@@ -268,7 +270,7 @@ def fill_pbc_info_for_empty_y_values(pbc_info_per_y):
     return pbc_info_per_y
 
 def update_interface_with_pbc_info(ys, xs_left, xs_right, box_x,
-        old_pbc_info_per_y, old_yindex_data):
+        old_pbc_info_per_y, old_yindex_data, xbegin=0.):
     """Check whether the interface jumps for any y-value and update pbc info."""
 
     new_yindex_data = get_yindex_data(ys)
@@ -282,7 +284,7 @@ def update_interface_with_pbc_info(ys, xs_left, xs_right, box_x,
 
         if pbc_info != None:
             new_pbc_info = check_and_update_periodic_info(
-                pbc_info, box_x, xl, xr
+                pbc_info, box_x, xl, xr, xbegin=xbegin
             )
         else:
             new_pbc_info = init_periodic_info(xleft=xl, xright=xr)
diff --git a/strata/spreading/collect.py b/strata/spreading/collect.py
index 9305167..02cd01c 100644
--- a/strata/spreading/collect.py
+++ b/strata/spreading/collect.py
@@ -119,8 +119,11 @@ def collect(base, **kwargs):
         if left != None and right != None:
             box_x, _ = flow.size()
 
+            dx, _ = flow.spacing
+            xbegin = np.min(flow.data['X']) - 0.5*dx
+
             pbc_info = check_and_update_periodic_info(
-                pbc_info, box_x, left, right
+                pbc_info, box_x, left, right, xbegin=xbegin
             )
 
             left_absolute, right_absolute = add_pbc_multipliers_to_edges(
@@ -230,7 +233,7 @@ def init_periodic_info(xleft=None, xright=None):
         )
 
 def check_and_update_periodic_info(pbc_info, box_x,
-        xleft_current, xright_current):
+        xleft_current, xright_current, xbegin=0.):
     """Detect whether an edge has crossed a boundary and update the multipliers.
 
     If a PBC boundary has been crossed by one edge (assuming that the time
@@ -258,6 +261,10 @@ def check_and_update_periodic_info(pbc_info, box_x,
         xleft_current, xright_current (float): The box-relative position of
             the left and right edges.
 
+    Keyword Args:
+        xbegin (float, default=0.): The position along x at which the system
+            begins.
+
     Returns:
         PeriodicInfo: The new state of the periodic multipliers
             and edge positions.
@@ -267,7 +274,9 @@ def check_and_update_periodic_info(pbc_info, box_x,
     def get_pbc_edge_multiplier_addition(x_current, box_x):
         """Return -1 if the left edge was crossed, +1 if the right edge."""
 
-        if x_current % box_x > abs(box_x - x_current % box_x):
+        x_relative = (x_current - xbegin) % box_x
+
+        if x_relative > abs(box_x - x_relative):
             return -1
         else:
             return +1
-- 
2.43.0


From e5fec75447d5e4709adabac63f92f4f76fdf83f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:06 +0000
Subject: [PATCH 20/43] fix: number of bins of recentered maps

The width over the spacing can come out slightly below the whole number
it stands for and was truncated to one bin less.
---
 strata/average.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/strata/average.py b/strata/average.py
index fe6cdc1..a8bf52e 100644
--- a/strata/average.py
+++ b/strata/average.py
@@ -228,7 +228,7 @@ def recenter_maps(data_maps, recenter_values):
     # for all final maps we can cheat a little bit
     origin = [xmin, np.min(data_subset['Y'])]
     spacing = [spacing, np.mean(np.diff(np.unique(data_subset['Y'])))]
-    nx = int((xmax - xmin)/spacing[0]) + 1
+    nx = int(np.round((xmax - xmin)/spacing[0])) + 1
     num_bins = data_subset['X'].size
     shape = [nx, num_bins // nx]
 
-- 
2.43.0


From fc02c3e709b04534c0c9297e481b3e0666b613f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:06 +0000
Subject: [PATCH 21/43] fix: write combined bins with the grid of the combined
 bins

The grid of the maps before combining was written, which has more bins
than the data: average --combine could not write any file.
---
 strata/average.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/strata/average.py b/strata/average.py
index a8bf52e..1a23c3c 100644
--- a/strata/average.py
+++ b/strata/average.py
@@ -150,7 +150,7 @@ def average(base, output, group=1, rolling=False, **kwargs):
         avg_data = module.average_data(*group_data)
 
         if combine != (None, None):
-            avg_data, _ = module.combine_bins(avg_data, info, nx, ny)
+            avg_data, info = module.combine_bins(avg_data, info, nx, ny)
 
         if supersample != None:
             data = [(l, avg_data[l]) for l in avg_data.keys()]
-- 
2.43.0


From 13188fe807d956e79722336bf0dd107eaa2d2830 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:06 +0000
Subject: [PATCH 22/43] fix: write cut maps with the grid of the cut maps

The grid of the whole maps was written, which has more bins than the
data: average --xlim and --ylim could not write any file.
---
 strata/average.py | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/strata/average.py b/strata/average.py
index 1a23c3c..f11198b 100644
--- a/strata/average.py
+++ b/strata/average.py
@@ -112,7 +112,7 @@ def average(base, output, group=1, rolling=False, **kwargs):
 
         for data, info, meta in read_from_files(*fn_group):
             if cut_x_or_y:
-                data = cut_system(data, xlim, ylim)
+                data, info = cut_system(data, info, xlim, ylim)
 
             group_data.append(data)
             used_modules.add(meta.pop('module'))
@@ -242,7 +242,9 @@ def recenter_maps(data_maps, recenter_values):
     return recentered_data, info
 
 
-def cut_system(data, xlim, ylim):
+def cut_system(data, info, xlim, ylim):
+    """Cut input data to the limits and return it with its grid information."""
+
     xs = data['X']
     ys = data['Y']
 
@@ -253,7 +255,21 @@ def cut_system(data, xlim, ylim):
 
     inds = (xs >= xmin) & (xs <= xmax) & (ys >= ymin) & (ys <= ymax)
 
+    # The origin moves by as much as the first remaining bin
+    origin = [
+        x0 + np.min(cs[inds]) - np.min(cs)
+        for x0, cs in zip(info['origin'], (xs, ys))
+    ]
+    shape = [np.unique(cs[inds]).size for cs in (xs, ys)]
+
+    cut_info = {
+        'origin': origin,
+        'spacing': info['spacing'],
+        'shape': shape,
+        'num_bins': shape[0] * shape[1]
+    }
+
     for key in data.keys():
         data[key] = data[key][inds]
 
-    return data
+    return data, cut_info
-- 
2.43.0


From 8552d04fffcb5b54511f6b1d3f7c88eeb4dcbf4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:06 +0000
Subject: [PATCH 23/43] fix: write supersampled maps with their own grid

The information about the grid lost its origin, so that average
--supersample could not write any file.
---
 strata/average.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/strata/average.py b/strata/average.py
index f11198b..7b54fd0 100644
--- a/strata/average.py
+++ b/strata/average.py
@@ -154,22 +154,33 @@ def average(base, output, group=1, rolling=False, **kwargs):
 
         if supersample != None:
             data = [(l, avg_data[l]) for l in avg_data.keys()]
-            info = {
+            grid = {
                 'shape': info['shape'],
                 'spacing': info['spacing'],
             }
 
-            flow = FlowData(*data, info=info)
+            flow = FlowData(*data, info=grid)
 
             supersampled_data = supersample_flow_data(
                 flow, supersample, weights=[('U', 'M'), ('V', 'M'), ('T', 'N')]
             )
 
+            # Maps are written with the bins ordered along x first
+            supersampled_data.sort(coord_labels=('Y', 'X'))
+
             avg_data = {
                 l: supersampled_data.data[l]
                 for l in supersampled_data.properties
             }
 
+            shape = supersampled_data.shape
+            info = {
+                'origin': info['origin'],
+                'spacing': supersampled_data.spacing,
+                'shape': shape,
+                'num_bins': shape[0] * shape[1]
+            }
+
         write(fn_out, avg_data, info)
 
         if not quiet:
-- 
2.43.0


From ac65af33a028e8fbc0b683a1b49879b3b9e659e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:46 +0000
Subject: [PATCH 24/43] fix: slip lengths sampled after viscous dissipation

Sampling the viscous dissipation sorts the bins along y first, and the
columns of the map were then taken from the wrong bins: the result
depended on the order of the labels.
---
 strata/sample_average.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/strata/sample_average.py b/strata/sample_average.py
index 3464bc7..f3e7abb 100644
--- a/strata/sample_average.py
+++ b/strata/sample_average.py
@@ -176,6 +176,9 @@ def sample_value(flow, label, cutoff, cutoff_label, sum, viscosity):
     if label == 'inertial_energy':
         sample_data = sample_inertial_energy(flow).ravel()
     elif label == 'visc_diss':
+        # This sorts the bins of the map in another order, which has to be
+        # kept from the sampling of other labels.
+        flow = flow.copy()
         sample_data = sample_viscous_dissipation(flow, viscosity).ravel()
     elif label == 'flow_angle':
         # If we are sampling the flow angle mean we do things a bit
-- 
2.43.0


From 3e5badc33c74b89d8eff2829f7b02171a662c158 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:48 +0000
Subject: [PATCH 25/43] fix: write contact line maps with their grid

The collected maps were written without grid information, which always
failed, and their bins were not ordered along x first as in other maps.
---
 strata/contact_line_analysis.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/strata/contact_line_analysis.py b/strata/contact_line_analysis.py
index 7d9c66e..1f1cdda 100644
--- a/strata/contact_line_analysis.py
+++ b/strata/contact_line_analysis.py
@@ -69,7 +69,11 @@ def extract_contact_line_bins(base, output, average=1,
             fuse_edges(avg_flow_per_edge, spacing)
 
         recombined_flow_data = combine_flow_data(avg_flow_per_edge, spacing)
-        write(next(fnout), recombined_flow_data.data)
+        write(next(fnout), recombined_flow_data.data, {
+            'shape': recombined_flow_data.shape,
+            'spacing': recombined_flow_data.spacing,
+            'origin': recombined_flow_data.origin,
+        })
 
 
 """Fuse the left and right edges in the center."""
@@ -402,9 +406,8 @@ def combine_flow_data(avg_flow, spacing):
         grid['X'] -= 0.5 * dx
         grid['Y'] -= 0.5 * dy
 
-        grid.sort(order=['X', 'Y'])
-
-        return [(l, grid[l]) for l in grid.dtype.names]
+        # Maps are written with the bins ordered along x first
+        return [(l, grid[l].T) for l in grid.dtype.names]
 
     left, right = avg_flow
 
@@ -423,7 +426,11 @@ def combine_flow_data(avg_flow, spacing):
 
     ny, nx = grid.shape
 
-    return FlowData(*combined_data, info={'spacing': spacing, 'shape': (nx, ny)})
+    origin = (np.min(grid['X']), np.min(grid['Y']))
+
+    return FlowData(*combined_data, info={
+        'spacing': spacing, 'shape': (nx, ny), 'origin': origin
+    })
 
 
 def add_adjusted_flow(bins, direction, info):
-- 
2.43.0


From 7aa343913ec085ac2d2b8b3ef862b59602de9314 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:48 +0000
Subject: [PATCH 26/43] fix: find the shape of contact line bins of a single
 layer

The search for the second layer ran past the end, and compared heights
with the bin width.
---
 strata/contact_line_analysis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/strata/contact_line_analysis.py b/strata/contact_line_analysis.py
index 1f1cdda..7fcd7c9 100644
--- a/strata/contact_line_analysis.py
+++ b/strata/contact_line_analysis.py
@@ -446,7 +446,7 @@ def add_adjusted_flow(bins, direction, info):
         y0 = ys[0]
         nx = 1
 
-        while (ys[nx] >= y0 - 0.5 * dy) and (ys[nx] < y0 + 0.5 * dx):
+        while nx < ys.size and ys[nx] < y0 + 0.5 * dy:
             nx += 1
 
         ny = data.size // nx
-- 
2.43.0


From 1ca4ce7c920c2704b3dacfa2a3b0616be08d05f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:48 +0000
Subject: [PATCH 27/43] fix: sample contact lines without an undefined
 deviation

---
 strata/contact_line_analysis.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/strata/contact_line_analysis.py b/strata/contact_line_analysis.py
index 7fcd7c9..d1445df 100644
--- a/strata/contact_line_analysis.py
+++ b/strata/contact_line_analysis.py
@@ -199,7 +199,7 @@ def sample_contact_line_edges(base, labels, save=None,
                 # except:
                     # std = None
 
-                samples[j].append([value, std])
+                samples[j].append(value)
             except Exception as exc:
                 print(
                         "error: could not add value for averaged map no. {}, "
@@ -221,8 +221,7 @@ def sample_contact_line_edges(base, labels, save=None,
                 try:
                     sampled_values = []
                     for label_samples in samples:
-                        value, std = label_samples[-1]
-                        sampled_values.append(value)
+                        sampled_values.append(label_samples[-1])
 
                     fp.write(' '.join(
                             ['{:g}'.format(v) for v in sampled_values]
-- 
2.43.0


From 10c58bc3fa463bdab39caf718a327689992a7492 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:48 +0000
Subject: [PATCH 28/43] fix: extract contact lines without printing progress

The progress bar was undefined with quiet.
---
 strata/contact_line_analysis.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/strata/contact_line_analysis.py b/strata/contact_line_analysis.py
index d1445df..b3034e1 100644
--- a/strata/contact_line_analysis.py
+++ b/strata/contact_line_analysis.py
@@ -271,6 +271,7 @@ def get_averaged_contact_line_edges(filenames, average, rolling,
         return (nx, ny)
 
     quiet = kwargs.pop('quiet', False)
+    progress = None
     if not quiet:
         if rolling:
             length = len(filenames) - average + 1
-- 
2.43.0


From f4d07a3ff26ea4839a379e933ea9805833e6b352 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:48 +0000
Subject: [PATCH 29/43] fix: accept fewer files than a rolling contact line
 average needs

---
 strata/contact_line_analysis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/strata/contact_line_analysis.py b/strata/contact_line_analysis.py
index b3034e1..e0f717b 100644
--- a/strata/contact_line_analysis.py
+++ b/strata/contact_line_analysis.py
@@ -274,7 +274,7 @@ def get_averaged_contact_line_edges(filenames, average, rolling,
     progress = None
     if not quiet:
         if rolling:
-            length = len(filenames) - average + 1
+            length = max(0, len(filenames) - average + 1)
         else:
             length = int(len(filenames) / average)
 
-- 
2.43.0


From 97711b65f8d0d1be1e22326c4cd4b125a0c8491b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:48 +0000
Subject: [PATCH 30/43] fix: read spreading series of a single time

---
 strata/spreading/view.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/strata/spreading/view.py b/strata/spreading/view.py
index d70c665..6095a55 100644
--- a/strata/spreading/view.py
+++ b/strata/spreading/view.py
@@ -184,7 +184,7 @@ def read_spreading_data(*files):
         def read_plain_file(filename):
             """Read a simple file, comments starting with '#'."""
 
-            data = np.loadtxt(filename, unpack=True, comments='#')
+            data = np.loadtxt(filename, unpack=True, comments='#', ndmin=2)
             times = data[0]
             all_series = [get_series(radii, times, filename, i+1)
                     for i, radii in enumerate(data[1:])]
-- 
2.43.0


From 26646372df226834ec0a92c00e544adb859a0e0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:23 +0000
Subject: [PATCH 31/43] fix: draw the viscous dissipation of every input file

---
 strata/view_flowmap.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/strata/view_flowmap.py b/strata/view_flowmap.py
index ac48508..ee17b3d 100644
--- a/strata/view_flowmap.py
+++ b/strata/view_flowmap.py
@@ -264,8 +264,10 @@ def view_flowmap_2d(*files, label='M', type='heightmap',
         if label == 'flow':
             flow.data = add_absolute_flow(flow.data)
 
+        data_label = label
+
         if label == 'visc_diss':
-            label = 'visc'
+            data_label = 'visc'
             add_viscous_dissipation(flow, viscosity=8.77e-4)
 
         if label == 'evaporation':
@@ -278,9 +280,9 @@ def view_flowmap_2d(*files, label='M', type='heightmap',
             flow = flow.lims(cutoff_label, cutoff, None)
 
         if print_avg_value:
-            print_average_value(flow.data, label, kwargs)
+            print_average_value(flow.data, data_label, kwargs)
 
-        func(flow.data, info, label, **kwargs)
+        func(flow.data, info, data_label, **kwargs)
         plt.clf()
 
 
-- 
2.43.0


From 54e596a26226859372b232e937f92fb683b6ebe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:23 +0000
Subject: [PATCH 32/43] fix: use the bin spacing of its own axis for each
 density gradient

---
 strata/view_flowmap.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/strata/view_flowmap.py b/strata/view_flowmap.py
index ee17b3d..4d90ced 100644
--- a/strata/view_flowmap.py
+++ b/strata/view_flowmap.py
@@ -418,14 +418,14 @@ def add_density_gradient(flow):
     from numpy.lib.recfunctions import append_fields
 
     (nx, ny) = flow.shape
-    spacing = flow.spacing
+    dx, dy = flow.spacing
 
     flow.sort()
 
     data = flow.data.reshape(ny, nx)
 
     mass_gradient_y, mass_gradient_x = np.gradient(
-        data['M'], *spacing, edge_order=1
+        data['M'], dy, dx, edge_order=1
         )
 
     flow.data = append_fields(flow.data, 'grad_rho_x', mass_gradient_x.ravel(),
@@ -449,14 +449,14 @@ def add_evaporation(flow):
     from numpy.lib.recfunctions import append_fields
 
     (nx, ny) = flow.shape
-    spacing = flow.spacing
+    dx, dy = flow.spacing
 
     flow.sort()
 
     data = flow.data.reshape(ny, nx)
 
     mass_gradient_y, mass_gradient_x = np.gradient(
-        data['M'], *spacing, edge_order=1
+        data['M'], dy, dx, edge_order=1
         )
 
     us = data['U']
-- 
2.43.0


From 79287baec091b0dbc2dc2781ff98be0010e3df7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:23 +0000
Subject: [PATCH 33/43] fix: draw flow which is along one of the axes

---
 strata/view_flowmap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/strata/view_flowmap.py b/strata/view_flowmap.py
index 4d90ced..4edee40 100644
--- a/strata/view_flowmap.py
+++ b/strata/view_flowmap.py
@@ -185,7 +185,7 @@ def get_quiver_data(data, labels, coord_labels, colour, clim, xlim, ylim):
     us, vs = (data[l] for l in labels)
 
     # Cut bins without flow
-    inds = (us != 0.) & (vs != 0.)
+    inds = (us != 0.) | (vs != 0.)
 
     # Apply limits on coordinates
     inds = inds & cut_system(xs, xlim) & cut_system(ys, ylim)
-- 
2.43.0


From a8bf967742998bcf87fdc58e273fdedab96ae380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:49 +0000
Subject: [PATCH 34/43] fix: leave no empty figure behind after a map is drawn

---
 strata/view_flowmap.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/strata/view_flowmap.py b/strata/view_flowmap.py
index 4edee40..e6121a2 100644
--- a/strata/view_flowmap.py
+++ b/strata/view_flowmap.py
@@ -283,7 +283,6 @@ def view_flowmap_2d(*files, label='M', type='heightmap',
             print_average_value(flow.data, data_label, kwargs)
 
         func(flow.data, info, data_label, **kwargs)
-        plt.clf()
 
 
 def create_figure(**kwargs):
-- 
2.43.0


From 4e5ce25922949f70170ada9caca6fb2dead000cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:49 +0000
Subject: [PATCH 35/43] fix: save figures with the dimensions in pixels which
 were asked for

---
 strata/utils.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/strata/utils.py b/strata/utils.py
index e50b258..2b6aa60 100644
--- a/strata/utils.py
+++ b/strata/utils.py
@@ -343,6 +343,10 @@ def decorate_graph(func):
 
         fargs = pop_figure_kwargs(kwargs)
 
+        # Figure dimensions in pixels depend on the dpi it is saved with
+        if kwargs.get('dims'):
+            kwargs['dpi'] = fargs['dpi']
+
         if fargs['colormap'] != None:
             try:
                 plt.rc('image', cmap=fargs['colormap'])
-- 
2.43.0


From 9c7bc0de5a960e8b8b7c81317144d3c1db05b18b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:50 +0000
Subject: [PATCH 36/43] fix: accept every choice of cut-off label for height
 maps

---
 strata/view_flowmap.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/strata/view_flowmap.py b/strata/view_flowmap.py
index e6121a2..7d498ca 100644
--- a/strata/view_flowmap.py
+++ b/strata/view_flowmap.py
@@ -258,16 +258,21 @@ def view_flowmap_2d(*files, label='M', type='heightmap',
     kwargs.setdefault('noaxis', True)
     kwargs.setdefault('coord_labels', ('X', 'Y'))
 
+    if cutoff == None or cutoff_label == 'None':
+        cutoff_label = None
+
     for i, (data, info, _) in enumerate(read_from_files(*files)):
         flow = FlowData(data, info=info)
 
-        if label == 'flow':
+        if 'flow' in (label, cutoff_label):
             flow.data = add_absolute_flow(flow.data)
 
         data_label = label
 
         if label == 'visc_diss':
             data_label = 'visc'
+
+        if label == 'visc_diss' or cutoff_label == 'visc':
             add_viscous_dissipation(flow, viscosity=8.77e-4)
 
         if label == 'evaporation':
@@ -276,7 +281,7 @@ def view_flowmap_2d(*files, label='M', type='heightmap',
         if label in ['grad_rho_x', 'grad_rho_y']:
             add_density_gradient(flow)
 
-        if cutoff != None and cutoff_label != None:
+        if cutoff_label != None:
             flow = flow.lims(cutoff_label, cutoff, None)
 
         if print_avg_value:
-- 
2.43.0


From 6b4c00887e19822eb884dd18767dfd7e9969aa94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:15 +0000
Subject: [PATCH 37/43] fix: draw spreading series with the pyplot of today

pyplot has no hold any more: every graph which spreading view or fit should
show or save ended with an exception.
---
 strata/spreading/fit.py  | 1 -
 strata/spreading/view.py | 1 -
 2 files changed, 2 deletions(-)

diff --git a/strata/spreading/fit.py b/strata/spreading/fit.py
index 13663dc..cdcdf5a 100644
--- a/strata/spreading/fit.py
+++ b/strata/spreading/fit.py
@@ -170,7 +170,6 @@ def plot_fitting_data(fit_data, data, **kwargs):
 
     """
 
-    plt.hold(True)
     for s_fit, s_data in zip(fit_data, data):
         fit_label = s_fit.name.strip(s_data.name).strip()
         plt.plot(s_data.index, s_data.values, label=s_data.name, **kwargs)
diff --git a/strata/spreading/view.py b/strata/spreading/view.py
index 6095a55..de27d00 100644
--- a/strata/spreading/view.py
+++ b/strata/spreading/view.py
@@ -351,6 +351,5 @@ def plot_spreading_data(all_series, **kwargs):
 
     """
 
-    plt.hold(True)
     for s in all_series:
         plt.plot(s.index, s.values, **kwargs)
-- 
2.43.0


From f1d1626143507ff329793b01b69eb5e581eaaf63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:15 +0000
Subject: [PATCH 38/43] fix: save the figure of fits which are not shown

---
 strata/spreading/fit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/strata/spreading/fit.py b/strata/spreading/fit.py
index cdcdf5a..e4de059 100644
--- a/strata/spreading/fit.py
+++ b/strata/spreading/fit.py
@@ -49,7 +49,7 @@ def fit_spreading_data(files, lims=(None, None), save_xvg=None,
     if save_xvg != None:
         write_fitting_data(save_xvg, fit_data, lims, out_lims)
 
-    if kwargs.get('show', True):
+    if kwargs.get('show', True) or kwargs.get('save_fig', None):
         plot_fitting_data(fit_data, data, **kwargs)
 
     return fit_params
-- 
2.43.0


From 1b79384cc49c0ad917d4f2e296bbf5bb734224a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:15 +0000
Subject: [PATCH 39/43] fix: label fits with all digits of their parameters

The characters of the name of the series were stripped from both ends of the
label, and with them the last digits of the index.
---
 strata/spreading/fit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/strata/spreading/fit.py b/strata/spreading/fit.py
index e4de059..af4e906 100644
--- a/strata/spreading/fit.py
+++ b/strata/spreading/fit.py
@@ -171,7 +171,7 @@ def plot_fitting_data(fit_data, data, **kwargs):
     """
 
     for s_fit, s_data in zip(fit_data, data):
-        fit_label = s_fit.name.strip(s_data.name).strip()
+        fit_label = s_fit.name[len(s_data.name):].strip()
         plt.plot(s_data.index, s_data.values, label=s_data.name, **kwargs)
         plt.plot(s_fit.index, s_fit.values, label=fit_label, **kwargs)
 
-- 
2.43.0


From b2a6d8d4c2ec5dc2b7ec68fb2ccc34848dd8a330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:45:35 +0000
Subject: [PATCH 40/43] fix: draw stream lines of flow fields

The grid got another shape than its bins, limits of 0 and a missing cut-off or
colour failed, small grids drew nothing, and options --vlim and --dims were
ignored. Added colours also came with the bins in another order.
---
 strata/view_flowmap.py | 56 +++++++++++++++++++++++++++---------------
 1 file changed, 36 insertions(+), 20 deletions(-)

diff --git a/strata/view_flowmap.py b/strata/view_flowmap.py
index 7d498ca..619be5e 100644
--- a/strata/view_flowmap.py
+++ b/strata/view_flowmap.py
@@ -72,7 +72,7 @@ def view_flowfields(*files, labels=('U', 'V'), cutoff_label='M', cutoff=None,
                     flow, list(labels), coord_labels, colour, clim, xlim, ylim
                 )
 
-                plot_streamlines(x, y, u, v, weights, line_weights, **kwargs)
+                plot_streamlines(x, y, u, v, weights, line_weights, vlim, **kwargs)
         except Exception as err:
             print("Could not draw/save figure: ", end='')
             print(err)
@@ -82,37 +82,41 @@ def get_streamline_data(flow, labels, coord_labels, colour, clim, xlim, ylim):
     x0, y0 = flow.origin
     dx, dy = flow.spacing
 
-    data = flow.data
-
     cutoff_label, cutoff_value = clim
 
     xlabel, ylabel = coord_labels
     xmin, xmax = xlim
     ymin, ymax = ylim
 
-    mask = (data[cutoff_label] < cutoff_value)
+    # The colour may have been added with the bins in another order
+    data = np.ma.getdata(flow.data)
+    data = data[np.lexsort((data[ylabel], data[xlabel]))]
+
+    if cutoff_label != None and cutoff_value != None:
+        mask = (data[cutoff_label] < cutoff_value)
+    else:
+        mask = np.zeros(data.size, dtype=bool)
 
     data = np.ma.array(data, mask=mask)
 
-    x0 = max(data['X'].min(), xmin if xmin else -np.inf)
-    x1 = min(data['X'].max(), xmax if xmax else np.inf)
-    y0 = max(data['Y'].min(), ymin if ymin else -np.inf)
-    y1 = min(data['Y'].max(), ymax if ymax else np.inf)
+    x0 = max(data['X'].min(), xmin if xmin != None else -np.inf)
+    x1 = min(data['X'].max(), xmax if xmax != None else np.inf)
+    y0 = max(data['Y'].min(), ymin if ymin != None else -np.inf)
+    y1 = min(data['Y'].max(), ymax if ymax != None else np.inf)
 
     inds = (data[xlabel] >= x0) \
         & (data[xlabel] <= x1) \
         & (data[ylabel] >= y0) \
         & (data[ylabel] <= y1)
 
-    data = data[inds]
+    data = data[np.ma.getdata(inds)]
 
-    x0 = data[xlabel].min()
-    x1 = data[xlabel].max()
-    y0 = data[ylabel].min()
-    y1 = data[ylabel].max()
+    # All of the bins within the limits belong to the grid, empty or not
+    xs, ys = (np.ma.getdata(data[l]) for l in (xlabel, ylabel))
+    x0, y0 = xs.min(), ys.min()
 
-    nx = int((x1 - x0) / dx) + 2
-    ny = int((y1 - y0) / dy) + 2
+    nx = int(np.round((xs.max() - x0) / dx)) + 1
+    ny = int(np.round((ys.max() - y0) / dy)) + 1
 
     data = data.reshape(nx, ny).transpose()
 
@@ -122,24 +126,36 @@ def get_streamline_data(flow, labels, coord_labels, colour, clim, xlim, ylim):
     u = data['U']
     v = data['V']
 
-    weights = data[colour]
+    weights = data[colour] if colour in data.dtype.names else None
     line_weights = data['M']
 
     return x, y, u, v, weights, line_weights
 
 
 @decorate_graph
-def plot_streamlines(xs, ys, us, vs, weights, line_weights=None, **kwargs):
+def plot_streamlines(xs, ys, us, vs, weights, line_weights=None,
+        vlim=(None, None), **kwargs):
     """Draw a streamlines plot of input data."""
 
     ny, nx = us.shape
 
-    density_x = nx // 30
-    density_y = ny // 30
+    density_x = max(1, nx // 30)
+    density_y = max(1, ny // 30)
 
     linewidth = 1.5 * line_weights / line_weights.max()
 
-    fig = plt.streamplot(xs, ys, us, vs, (density_x, density_y), color=weights, linewidth=linewidth)
+    norm = None
+    if weights is not None:
+        vmin, vmax = vlim
+        norm = plt.Normalize(
+            float(vmin) if vmin != None else weights.min(),
+            float(vmax) if vmax != None else weights.max()
+        )
+
+    fig, ax = create_figure(**kwargs)
+
+    ax.streamplot(xs, ys, us, vs, (density_x, density_y), color=weights,
+            linewidth=linewidth, norm=norm)
 
     return fig
 
-- 
2.43.0


From 8d7ec0b35865ab0bd87bbe7645a11eed54cec5a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:32:16 +0000
Subject: [PATCH 41/43] fix: tell the radius which was used in the header of
 spreading data

---
 strata/spreading/collect.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/strata/spreading/collect.py b/strata/spreading/collect.py
index 02cd01c..e12a5e6 100644
--- a/strata/spreading/collect.py
+++ b/strata/spreading/collect.py
@@ -374,7 +374,7 @@ def write_header(output_path, input_base, kwargs):
                 % (os.path.realpath(input_base),
                     kwargs.get('begin', None), kwargs.get('end', None),
                     kwargs.get('floor', None), kwargs.get('dt', 1.),
-                    kwargs.get('cutoff', None), kwargs.get('include_radius', 1.),
+                    kwargs.get('cutoff', None), kwargs.get('cutoff_radius', 1.),
                     kwargs.get('cutoff_bins', 1)))
 
         fp.write(header + inputs)
-- 
2.43.0


From 293a0a9012b3f50f4d1184d7c8526941ab86740a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:32:16 +0000
Subject: [PATCH 42/43] fix: name the input files in the header of interfaces

---
 strata/interface/collect.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/strata/interface/collect.py b/strata/interface/collect.py
index 6220593..40d9feb 100644
--- a/strata/interface/collect.py
+++ b/strata/interface/collect.py
@@ -66,7 +66,7 @@ def collect_interfaces(base, output, recenter=None, **kwargs):
             flow, label, pbc_info_per_y, yindex_data, recenter, **kwargs
         )
 
-        write_interface_data(fnout, interface, [fnout], kwargs, recenter)
+        write_interface_data(fnout, interface, [fn], kwargs, recenter)
 
         if not quiet:
             progress.update(i + 1)
-- 
2.43.0


From 170e9a47f9f58730e7cde288dbce099ceaf96deb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:32:16 +0000
Subject: [PATCH 43/43] fix: tell the time difference which was used in headers
 of samples

---
 strata/contact_line_analysis.py | 2 +-
 strata/interface/angle.py       | 2 +-
 strata/interface/sample.py      | 2 +-
 strata/sample_average.py        | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/strata/contact_line_analysis.py b/strata/contact_line_analysis.py
index e0f717b..b6b4e20 100644
--- a/strata/contact_line_analysis.py
+++ b/strata/contact_line_analysis.py
@@ -146,7 +146,7 @@ def sample_contact_line_edges(base, labels, save=None,
 
     if save:
         try:
-            prepare_output(save, labels, cutoff, cutoff_label, average, rolling, kwargs.copy(), fopts)
+            prepare_output(save, labels, cutoff, cutoff_label, average, rolling, dict(kwargs, dt=dt), fopts)
         except PermissionError:
             print("[WARNING] Output disabled: could not open '%s' for writing."
                 % save)
diff --git a/strata/interface/angle.py b/strata/interface/angle.py
index 3b3edc9..bcec824 100644
--- a/strata/interface/angle.py
+++ b/strata/interface/angle.py
@@ -93,7 +93,7 @@ def interface_contact_angle(base, fit=False, height=None, delta_t=1., save_xvg=N
 
     if save_xvg:
         write_angle_data(save_xvg, base, height, times, contact_angles,
-            begin=fopts['begin'], end=fopts['end'])
+            begin=fopts['begin'], end=fopts['end'], delta_t=delta_t)
 
     if kwargs.get('show', True) or kwargs.get('save_fig', None):
         kwargs.setdefault('axis', 'tight')
diff --git a/strata/interface/sample.py b/strata/interface/sample.py
index 45b83ab..a0ce8e2 100644
--- a/strata/interface/sample.py
+++ b/strata/interface/sample.py
@@ -170,7 +170,7 @@ def write_header(output_path, input_base, variable, dt, kwargs):
                 "# Time (ps) %s\n"
                 % (os.path.realpath(input_base), variable,
                     kwargs.get('begin', None), kwargs.get('end', None),
-                    kwargs.get('dt', 1.), ylabel
+                    dt, ylabel
                     ))
 
         fp.write(inputs)
diff --git a/strata/sample_average.py b/strata/sample_average.py
index f3e7abb..80b14d6 100644
--- a/strata/sample_average.py
+++ b/strata/sample_average.py
@@ -95,7 +95,7 @@ def sample_average_files(base, labels, output=None, sum=False, dt=1.,
 
     if output:
         try:
-            prepare_output(output, labels, cutoff, cutoff_label, kwargs.copy(), fopts)
+            prepare_output(output, labels, cutoff, cutoff_label, dict(kwargs, dt=dt), fopts)
         except PermissionError:
             print("[WARNING] Output disabled: could not open '%s' for writing."
                 % output)
-- 
2.43.0

