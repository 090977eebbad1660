From 9769815e51e97e4f4e87e098fd03b6dd1a98137c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:36 +0000
Subject: [PATCH 01/30] fix: play the signal exactly once and silence the
 outputs afterwards in the JACK process callback

When the length of the input signal was not a multiple of the block size, the
transport position was set to the number of the remaining samples rather than
to the end of the signal, so that parts of it were played and recorded again.
Furthermore, JACK does not clear the buffers of the output ports, so that the
last block was repeated for as long as the client was active.
---
 sumpf/_blocks/_jack.py | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/sumpf/_blocks/_jack.py b/sumpf/_blocks/_jack.py
index 2d461ec..a5f86c3 100644
--- a/sumpf/_blocks/_jack.py
+++ b/sumpf/_blocks/_jack.py
@@ -439,7 +439,11 @@ def on_process(frames, instance):
     """The callback method, that is called, when the JACK server provides and requires new data to process."""
     # pylint: disable=protected-access; this is used like a method
     instance = instance()   # get the weakly referenced object
-    if not instance._event.is_set():
+    if instance is None:    # the instance is just being deleted
+        return
+    if instance._event.is_set():
+        _play_silence(instance._client.outports)    # the buffers of the output ports are not cleared by JACK
+    else:
         index = instance._index     # make this a local variable, because it is used a lot
         stop_index = index + frames
         channels = instance._input.channels()
@@ -449,22 +453,31 @@ def on_process(frames, instance):
             for port, channel in zip(instance._client.inports, instance._channels):
                 channel[index:stop_index] = port.get_array()
         elif index < instance._input.length():
-            stop_index = instance._input.length() - index
+            stop_index = instance._input.length()
+            remaining = stop_index - index
             for port, channel in zip(instance._client.outports, channels):
-                port.get_array()[0:stop_index] = channel[index:]
-                port.get_array()[stop_index:] = 0.0
+                port.get_array()[0:remaining] = channel[index:]
+                port.get_array()[remaining:] = 0.0
             for port, channel in zip(instance._client.inports, instance._channels):
-                channel[index:] = port.get_array()[0:stop_index]
+                channel[index:] = port.get_array()[0:remaining]
         else:
-            instance._event.set()
+            _play_silence(instance._client.outports)
             if instance._auto_deactivate:  # pylint: disable=no-else-raise
                 instance._store_connections()
+                instance._event.set()
                 raise jack.CallbackExit
             else:
+                instance._event.set()
                 return
         instance._index = stop_index
 
 
+def _play_silence(ports):
+    """Fills the buffers of the given output ports with zeros."""
+    for port in ports:
+        port.get_array()[:] = 0.0
+
+
 def on_sampling_rate_change(sampling_rate: int, pass_through):
     """The callback method, that is called, when the JACK server's sampling rate changes."""
     pass_through.input(float(sampling_rate))
-- 
2.43.0


From c9983ffcc4c9bc76a9e0600f8556bf96e56a6da2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:36 +0000
Subject: [PATCH 02/30] fix: convert the delay of an xrun from microseconds to
 seconds

---
 sumpf/_blocks/_jack.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sumpf/_blocks/_jack.py b/sumpf/_blocks/_jack.py
index a5f86c3..895f9b1 100644
--- a/sumpf/_blocks/_jack.py
+++ b/sumpf/_blocks/_jack.py
@@ -494,7 +494,7 @@ def on_xrun(delay: float, instance):
     old = instance._xruns.output()
     xrun = XRun(start=instance._index,
                 stop=instance._index + instance._client.blocksize,
-                delay=delay * 1e6)    # convert the microseconds to seconds
+                delay=delay / 1e6)    # convert the microseconds to seconds
     instance._xruns.input((old[0] + 1, xrun))
 
 ##############################
-- 
2.43.0


From 9fdd89c0dcb1fe435b15519830364513e55e6fb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:56 +0000
Subject: [PATCH 03/30] fix: wait for the automatic deactivation of the JACK
 client before changing its input signal

The end of a recording is signalled before the client has been deactivated at the
end of the process callback. Calling the input method and starting the next
recording in this time could deactivate the client during that recording, so that
it never finished.
---
 sumpf/_blocks/_jack.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/sumpf/_blocks/_jack.py b/sumpf/_blocks/_jack.py
index 895f9b1..a7b8657 100644
--- a/sumpf/_blocks/_jack.py
+++ b/sumpf/_blocks/_jack.py
@@ -144,7 +144,7 @@ class Jack:
         :param signal: a :class:`~sumpf.Signal` instance
         :returns: ``self``
         """
-        self._event.wait()  # don't change the signal during a recording
+        self.__wait()   # don't change the signal during a recording
         self._input = signal
         self.__update_output_ports()
         return self
@@ -156,9 +156,7 @@ class Jack:
 
         :returns: a :class:`~sumpf.Signal` instance
         """
-        self._event.wait()
-        if self._auto_deactivate:
-            time.sleep(1.1 * self._client.blocksize / self._client.samplerate)  # wait for one buffer length to avoid xruns during the last call of the process-callback
+        self.__wait()
         return sumpf.Signal(channels=self._channels,
                             sampling_rate=self._sampling_rate.output(),
                             offset=self._input.offset(),
@@ -303,7 +301,7 @@ class Jack:
         """
         self._auto_deactivate = auto
         if self._auto_deactivate:
-            self._event.wait()  # don't deactivate the client during a recording
+            self.__wait()   # don't deactivate the client during a recording
             self._store_connections()
             self._client.deactivate()
         return self
@@ -334,6 +332,13 @@ class Jack:
     # private helper methods #
     ##########################
 
+    def __wait(self):
+        """A helper method, that waits for an ongoing recording to finish and for
+        the client to be deactivated afterwards, if this is done automatically."""
+        self._event.wait()
+        if self._auto_deactivate:
+            time.sleep(1.1 * self._client.blocksize / self._client.samplerate)  # wait for one buffer length to avoid xruns during the last call of the process-callback
+
     def __connect(self, output_port, input_port):
         """A helper method, that checks if the given connection already exists and creates it, if not."""
         o = self.__output_port(output_port, own=False)
-- 
2.43.0


From cd5162ed7c59f02ddb7604b9804dbcb641a4f541 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:56 +0000
Subject: [PATCH 04/30] fix: do not wait forever for a recording, that is
 started while the JACK server is shut down

---
 sumpf/_blocks/_jack.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/sumpf/_blocks/_jack.py b/sumpf/_blocks/_jack.py
index a7b8657..e512ec6 100644
--- a/sumpf/_blocks/_jack.py
+++ b/sumpf/_blocks/_jack.py
@@ -87,6 +87,7 @@ class Jack:
         self._index = 0
         self._event = threading.Event()
         self._event.set()
+        self._shutdown = threading.Event()  # is set, when the JACK server has been shut down
         # initialize a JACK client
         self._client = jack.Client(name)
         self.__update_output_ports()
@@ -97,7 +98,7 @@ class Jack:
         self._xruns = connectors.blocks.PassThrough((0, None))
         # set the callbacks and activate the client
         self._client.set_process_callback(functools.partial(on_process, instance=weakref.ref(self)))
-        self._client.set_shutdown_callback(functools.partial(on_shutdown, event=self._event))
+        self._client.set_shutdown_callback(functools.partial(on_shutdown, event=self._event, shutdown=self._shutdown))
         self._client.set_samplerate_callback(functools.partial(on_sampling_rate_change, pass_through=self._sampling_rate))  # pylint: disable=line-too-long; all of these lines do a very similar thing. Splitting this line would make it harder to see that
         self._client.set_xrun_callback(functools.partial(on_xrun, instance=weakref.proxy(self)))
         if not self._auto_deactivate:
@@ -135,6 +136,8 @@ class Jack:
         self._channels = sumpf_internal.allocate_array(shape=(len(self._client.inports), self._input.length()))
         self._index = 0
         self._event.clear()
+        if self._shutdown.is_set():     # without the JACK server, the recording would never finish
+            self._event.set()
         return self
 
     @connectors.Input(laziness=connectors.Laziness.ON_CONNECT)
@@ -488,8 +491,9 @@ def on_sampling_rate_change(sampling_rate: int, pass_through):
     pass_through.input(float(sampling_rate))
 
 
-def on_shutdown(status: jack.Status, reason: str, event):  # noqa; pylint: disable=unused-argument; these ignored arguments are required to be a compatible callback function
+def on_shutdown(status: jack.Status, reason: str, event, shutdown):  # noqa; pylint: disable=unused-argument; these ignored arguments are required to be a compatible callback function
     """The callback method, that is called, when the JACK server is shut down."""
+    shutdown.set()
     event.set()
 
 
-- 
2.43.0


From 1f30594993057a17b5841ac0d51eeef34ab888b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:34 +0000
Subject: [PATCH 05/30] fix: keep the JACK connections, when the output ports
 are replaced

The connections between an instance's own ports were stored with references to the
output ports, so that they failed or pointed to other ports after the ports had
been replaced. Furthermore, a stored connection of a channel, that the current
input signal does not have, raised an IndexError.
---
 sumpf/_blocks/_jack.py | 29 ++++++++++++++++++++---------
 1 file changed, 20 insertions(+), 9 deletions(-)

diff --git a/sumpf/_blocks/_jack.py b/sumpf/_blocks/_jack.py
index e512ec6..079d5cb 100644
--- a/sumpf/_blocks/_jack.py
+++ b/sumpf/_blocks/_jack.py
@@ -316,9 +316,7 @@ class Jack:
         :returns: ``self``
         """
         self._client.activate()
-        for c in self.__connections:
-            self.__connect(*c)
-        self.__connections.clear()
+        self.__restore_connections()
         return self
 
     @connectors.Input(laziness=connectors.Laziness.ON_ANNOUNCE)
@@ -356,12 +354,28 @@ class Jack:
         so that the connections can be restored after reactivating the client.
         """
         connections = []
+        outports = [p.name for p in self._client.outports]  # the own ports are stored by their index, because they are replaced, when the input signal changes
         for i, c in enumerate(self._client.outports):
             connections.extend([(i, p) for p in c.connections if not self._client.owns(p)])
         for i, c in enumerate(self._client.inports):
-            connections.extend([(p, i) for p in c.connections])
+            connections.extend([(outports.index(p.name) if p.name in outports else p, i) for p in c.connections])
         if connections:     # connections can be empty, if the client is already deactivated, so we don't want to overwrite the stored connections
-            self.__connections = connections
+            self.__connections = connections + self.__missing_ports_connections()
+
+    def __restore_connections(self):
+        """A helper method, that establishes the stored connections in JACK. The
+        connections of output ports, that do not exist for the current input signal,
+        remain stored."""
+        remaining = self.__missing_ports_connections()
+        for o, i in self.__connections:
+            if not isinstance(o, int) or o < len(self._client.outports):
+                self.__connect(o, i)
+        self.__connections = remaining
+
+    def __missing_ports_connections(self):
+        """A helper method, that returns those stored connections, whose output
+        port does currently not exist, because the input signal has too few channels."""
+        return [(o, i) for o, i in self.__connections if isinstance(o, int) and o >= len(self._client.outports)]
 
     def __update_output_ports(self):
         """A helper method, that generates ports in the JACK server from the input signal's labels."""
@@ -386,12 +400,9 @@ class Jack:
             for label in labels:
                 self._client.outports.register(label)
             try:
-                for c in self.__connections:
-                    self.__connect(*c)
+                self.__restore_connections()
             except jack.JackError:
                 pass
-            else:
-                self.__connections.clear()
 
     def __input_port(self, port, own=True):
         """A helper method, that finds the input port, that is specified by ``port``.
-- 
2.43.0


From b1f1129d13ce745606d7706822b6424b56ae4d49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:14 +0000
Subject: [PATCH 06/30] fix: do not use connectors in the JACK callbacks and in
 the retrieval of a recording

If the xruns or the sampling_rate connector was connected, retrieving their value
in a callback or while computing the output interfered with the event loop of
a computation, that was running in another thread.
---
 sumpf/_blocks/_jack.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/sumpf/_blocks/_jack.py b/sumpf/_blocks/_jack.py
index 079d5cb..5fb9c69 100644
--- a/sumpf/_blocks/_jack.py
+++ b/sumpf/_blocks/_jack.py
@@ -96,6 +96,7 @@ class Jack:
         # Passthrough instances for asynchronous events
         self._sampling_rate = connectors.blocks.PassThrough(float(self._client.samplerate))
         self._xruns = connectors.blocks.PassThrough((0, None))
+        self._xrun_count = 0
         # set the callbacks and activate the client
         self._client.set_process_callback(functools.partial(on_process, instance=weakref.ref(self)))
         self._client.set_shutdown_callback(functools.partial(on_shutdown, event=self._event, shutdown=self._shutdown))
@@ -161,7 +162,7 @@ class Jack:
         """
         self.__wait()
         return sumpf.Signal(channels=self._channels,
-                            sampling_rate=self._sampling_rate.output(),
+                            sampling_rate=float(self._client.samplerate),
                             offset=self._input.offset(),
                             labels=[p.shortname for p in self._client.inports])
 
@@ -511,11 +512,11 @@ def on_shutdown(status: jack.Status, reason: str, event, shutdown):  # noqa; pyl
 def on_xrun(delay: float, instance):
     """The callback method, that is called, when an xrun occurred in the JACK server."""
     # pylint: disable=protected-access; this is used like a method
-    old = instance._xruns.output()
+    instance._xrun_count += 1
     xrun = XRun(start=instance._index,
                 stop=instance._index + instance._client.blocksize,
                 delay=delay / 1e6)    # convert the microseconds to seconds
-    instance._xruns.input((old[0] + 1, xrun))
+    instance._xruns.input((instance._xrun_count, xrun))
 
 ##############################
 # an additional helper class #
-- 
2.43.0


From 1bb9f7087fcef3d8c6323d41f532d5b040877659 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:31 +0000
Subject: [PATCH 07/30] fix: close the JACK client, when the instance is
 deleted during a process callback or after a shutdown of the server

The process callback temporarily holds a strong reference, so the instance could be
deleted at the end of that callback, from where the client cannot be closed. After
a shutdown of the server, unregistering the ports raised an exception, so that the
client was not closed at all.
---
 sumpf/_blocks/_jack.py | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/sumpf/_blocks/_jack.py b/sumpf/_blocks/_jack.py
index 5fb9c69..0f5ec73 100644
--- a/sumpf/_blocks/_jack.py
+++ b/sumpf/_blocks/_jack.py
@@ -88,6 +88,7 @@ class Jack:
         self._event = threading.Event()
         self._event.set()
         self._shutdown = threading.Event()  # is set, when the JACK server has been shut down
+        self._process_thread = None     # the identifier of the thread, in which JACK invokes the process callback
         # initialize a JACK client
         self._client = jack.Client(name)
         self.__update_output_ports()
@@ -107,10 +108,10 @@ class Jack:
 
     def __del__(self):
         """Deactivates the JACK client, when this instance is deleted."""
-        self._client.inports.clear()
-        self._client.outports.clear()
-        self._client.deactivate()
-        self._client.close()
+        if threading.get_ident() == self._process_thread:   # the process callback holds the last reference, but the client cannot be closed from within its callback
+            threading.Thread(target=close_client, args=(self._client,)).start()
+        else:
+            close_client(self._client)
 
     #####################################
     # playback and recording of signals #
@@ -455,12 +456,24 @@ class Jack:
 ###################################################################
 
 
+def close_client(client):
+    """Removes the ports of the given JACK client, deactivates and closes it."""
+    try:
+        client.inports.clear()
+        client.outports.clear()
+    except jack.JackError:  # the JACK server has been shut down
+        pass
+    client.deactivate()
+    client.close()
+
+
 def on_process(frames, instance):
     """The callback method, that is called, when the JACK server provides and requires new data to process."""
     # pylint: disable=protected-access; this is used like a method
     instance = instance()   # get the weakly referenced object
     if instance is None:    # the instance is just being deleted
         return
+    instance._process_thread = threading.get_ident()
     if instance._event.is_set():
         _play_silence(instance._client.outports)    # the buffers of the output ports are not cleared by JACK
     else:
-- 
2.43.0


From bcaf221f44e4c2cb34cfebf2ab1d638b7054da88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:31 +0000
Subject: [PATCH 08/30] fix: compute the start and the stop index of an xrun
 from the same transport position

---
 sumpf/_blocks/_jack.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/sumpf/_blocks/_jack.py b/sumpf/_blocks/_jack.py
index 0f5ec73..2897fdd 100644
--- a/sumpf/_blocks/_jack.py
+++ b/sumpf/_blocks/_jack.py
@@ -526,8 +526,9 @@ def on_xrun(delay: float, instance):
     """The callback method, that is called, when an xrun occurred in the JACK server."""
     # pylint: disable=protected-access; this is used like a method
     instance._xrun_count += 1
-    xrun = XRun(start=instance._index,
-                stop=instance._index + instance._client.blocksize,
+    start = instance._index     # the index is modified by another thread, so it must be read only once
+    xrun = XRun(start=start,
+                stop=start + instance._client.blocksize,
                 delay=delay / 1e6)    # convert the microseconds to seconds
     instance._xruns.input((instance._xrun_count, xrun))
 
-- 
2.43.0


From d3bcd8aec59d6ecc50e130792134a9659d6e0f03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:07 +0000
Subject: [PATCH 09/30] fix: load npy files with Python versions, in which a
 missing context manager is a TypeError

---
 sumpf/_internal/_persistence/_filter_readers.py   | 2 +-
 sumpf/_internal/_persistence/_signal_readers.py   | 2 +-
 sumpf/_internal/_persistence/_spectrum_readers.py | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/sumpf/_internal/_persistence/_filter_readers.py b/sumpf/_internal/_persistence/_filter_readers.py
index 5b590cd..88b7fef 100644
--- a/sumpf/_internal/_persistence/_filter_readers.py
+++ b/sumpf/_internal/_persistence/_filter_readers.py
@@ -298,7 +298,7 @@ class NumpyReader(Reader):
                 interpolations = tuple(data["interpolations"])
                 extrapolations = tuple(data["extrapolations"])
                 labels = tuple(data["labels"])
-        except AttributeError:  # npy files cannot be opened with a context manager
+        except (AttributeError, TypeError):  # npy files cannot be opened with a context manager (the type of the error depends on the Python version)
             array = numpy.load(path).transpose()
             frequencies = array[0].real
             channels = array[1:]
diff --git a/sumpf/_internal/_persistence/_signal_readers.py b/sumpf/_internal/_persistence/_signal_readers.py
index 58c925e..7781b8c 100644
--- a/sumpf/_internal/_persistence/_signal_readers.py
+++ b/sumpf/_internal/_persistence/_signal_readers.py
@@ -150,7 +150,7 @@ class NumpyReader(Reader):
         try:
             with numpy.load(path) as data:
                 return from_dict(data)
-        except AttributeError:  # npy files cannot be opened with a context manager
+        except (AttributeError, TypeError):  # npy files cannot be opened with a context manager (the type of the error depends on the Python version)
             array = numpy.load(path)
             filename = os.path.split(path)[-1]
             return from_rows(time_column=array[0],
diff --git a/sumpf/_internal/_persistence/_spectrum_readers.py b/sumpf/_internal/_persistence/_spectrum_readers.py
index 8f72e0b..bba9f55 100644
--- a/sumpf/_internal/_persistence/_spectrum_readers.py
+++ b/sumpf/_internal/_persistence/_spectrum_readers.py
@@ -177,7 +177,7 @@ class NumpyReader(Reader):
                 channels = allocate_array(shape=data["channels"].shape, dtype=numpy.complex128)
                 channels[:] = data["channels"]
                 return from_dict(channels, data)
-        except AttributeError:  # npy files cannot be opened with a context manager
+        except (AttributeError, TypeError):  # npy files cannot be opened with a context manager (the type of the error depends on the Python version)
             array = numpy.load(path)
             filename = os.path.split(path)[-1]
             return from_rows(frequency_column=array[0].real,
-- 
2.43.0


From a254c7b3bf30e760fb88a240571d985adda0f378 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:37 +0000
Subject: [PATCH 10/30] fix: report all errors of the disk when saving npy
 files

---
 sumpf/_internal/_persistence/_filter_writers.py   | 5 ++++-
 sumpf/_internal/_persistence/_signal_writers.py   | 5 ++++-
 sumpf/_internal/_persistence/_spectrum_writers.py | 5 ++++-
 3 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/sumpf/_internal/_persistence/_filter_writers.py b/sumpf/_internal/_persistence/_filter_writers.py
index c9e9ae9..3202383 100644
--- a/sumpf/_internal/_persistence/_filter_writers.py
+++ b/sumpf/_internal/_persistence/_filter_writers.py
@@ -18,6 +18,7 @@
 
 import csv
 import enum
+import io
 import json
 import pickle
 import numpy
@@ -467,8 +468,10 @@ class NumpyNpyWriter(TableWriter, Writer):
         for (f, ys), row in zip(sorted(bands.items()), array):
             row[0] = numpy.nan if f is None else f
             row[1:] = [numpy.nan if s is None else s for s in ys]
+        buffer = io.BytesIO()   # when writing to a file, numpy ignores some of the disk's errors
+        numpy.save(buffer, array)
         with open(path, "wb") as f:
-            numpy.save(f, array)
+            f.write(buffer.getbuffer())
 
 
 class NumpyNpzWriter(TableWriter, Writer):
diff --git a/sumpf/_internal/_persistence/_signal_writers.py b/sumpf/_internal/_persistence/_signal_writers.py
index b75f1ba..0f36b4c 100644
--- a/sumpf/_internal/_persistence/_signal_writers.py
+++ b/sumpf/_internal/_persistence/_signal_writers.py
@@ -19,6 +19,7 @@
 import aifc
 import csv
 import enum
+import io
 import json
 import math
 import pickle
@@ -177,8 +178,10 @@ class NumpyNpyWriter(Writer):
         array = numpy.empty(shape=(len(signal) + 1, signal.length()))
         array[0, :] = signal.time_samples()
         array[1:, :] = signal.channels()
+        buffer = io.BytesIO()   # when writing to a file, numpy ignores some of the disk's errors
+        numpy.save(buffer, array)
         with open(path, "wb") as f:
-            numpy.save(f, array)
+            f.write(buffer.getbuffer())
 
 
 class NumpyNpzWriter(Writer):
diff --git a/sumpf/_internal/_persistence/_spectrum_writers.py b/sumpf/_internal/_persistence/_spectrum_writers.py
index 7587716..b9afd02 100644
--- a/sumpf/_internal/_persistence/_spectrum_writers.py
+++ b/sumpf/_internal/_persistence/_spectrum_writers.py
@@ -20,6 +20,7 @@ import csv
 import json
 import pickle
 import enum
+import io
 import numpy
 from ._auto_writer import AutoWriter
 
@@ -141,8 +142,10 @@ class NumpyNpyWriter(Writer):
         array = numpy.empty(shape=(len(spectrum) + 1, spectrum.length()), dtype=numpy.complex128)
         array[0, :] = spectrum.frequency_samples()
         array[1:, :] = spectrum.channels()
+        buffer = io.BytesIO()   # when writing to a file, numpy ignores some of the disk's errors
+        numpy.save(buffer, array)
         with open(path, "wb") as f:
-            numpy.save(f, array)
+            f.write(buffer.getbuffer())
 
 
 class NumpyNpzWriter(Writer):
-- 
2.43.0


From 645fbfb4b22d57619d280a7220ba343e3db63623 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:37 +0000
Subject: [PATCH 11/30] fix: report all errors of the disk when saving files
 with the soundfile library

---
 sumpf/_internal/_persistence/_signal_writers.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/sumpf/_internal/_persistence/_signal_writers.py b/sumpf/_internal/_persistence/_signal_writers.py
index 0f36b4c..5f66561 100644
--- a/sumpf/_internal/_persistence/_signal_writers.py
+++ b/sumpf/_internal/_persistence/_signal_writers.py
@@ -379,11 +379,14 @@ class SoundfileWriter(Writer):
         :param path: the path of the file, in which the signal shall be saved
         """
         import soundfile  # pylint: disable=import-outside-toplevel; having this as a top-level import would make all writers unavailable, if the soundfile library is not installed
-        soundfile.write(file=path,
+        buffer = io.BytesIO()   # when writing to a file, soundfile ignores some of the disk's errors
+        soundfile.write(file=buffer,
                         data=signal.channels().transpose(),
                         samplerate=self.__sampling_rate_conversion(signal.sampling_rate()),
                         subtype=self.__subtype,
                         format=self.__format)
+        with open(path, "wb") as f:
+            f.write(buffer.getbuffer())
 
     def __int_greater_zero(self, sampling_rate):    # pylint: disable=no-self-use; this "function" should be connected with this class and not as public as a static method
         """Converts the input signal's sampling rate to the nearest integer, that
-- 
2.43.0


From 28fabf5409a5829033fb296e4158b87950e33c7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:04 +0000
Subject: [PATCH 12/30] fix: clip the samples to the range of the integers,
 when saving them with the standard library's modules

---
 sumpf/_internal/_persistence/_signal_writers.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/sumpf/_internal/_persistence/_signal_writers.py b/sumpf/_internal/_persistence/_signal_writers.py
index 5f66561..65b532c 100644
--- a/sumpf/_internal/_persistence/_signal_writers.py
+++ b/sumpf/_internal/_persistence/_signal_writers.py
@@ -244,6 +244,8 @@ class StandardLibraryWriter:
         if not signed:
             self.__sample_mask = self.__sample_mask.upper()
         self.__factor = 2 ** (bits - 1)
+        self.__minimum = -self.__factor if signed else 0
+        self.__maximum = self.__minimum + 2 * self.__factor - 1
         self.__signed = signed
         self.__endianness = endianness
 
@@ -270,7 +272,7 @@ class StandardLibraryWriter:
                 if not self.__signed:
                     array += 1.0
                 array *= self.__factor
-                chunk = struct.pack(mask, *numpy.round(array).astype(int))
+                chunk = struct.pack(mask, *numpy.clip(numpy.round(array), self.__minimum, self.__maximum).astype(int))
                 f.writeframes(chunk)
                 i += chunk_size
             remaining_samples = number_of_samples - i
@@ -286,7 +288,7 @@ class StandardLibraryWriter:
                 if not self.__signed:
                     array += 1.0
                 array *= self.__factor
-                chunk = struct.pack(mask, *numpy.round(array).astype(int))
+                chunk = struct.pack(mask, *numpy.clip(numpy.round(array), self.__minimum, self.__maximum).astype(int))
                 f.writeframes(chunk)
 
 
-- 
2.43.0


From deebb8c432ea372c22509e3bd8feaf40077ebcd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:04 +0000
Subject: [PATCH 13/30] fix: read compressed aifc files with the byte order of
 their decompressed samples

---
 sumpf/_internal/_persistence/_signal_readers.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/sumpf/_internal/_persistence/_signal_readers.py b/sumpf/_internal/_persistence/_signal_readers.py
index 7781b8c..1d5f434 100644
--- a/sumpf/_internal/_persistence/_signal_readers.py
+++ b/sumpf/_internal/_persistence/_signal_readers.py
@@ -210,10 +210,11 @@ class StandardLibraryReader:
             number_of_channels = f.getnchannels()
             number_of_samples = f.getnframes()
             sample_mask = self.__sample_width_mapping[f.getsampwidth()]
+            endianness = "=" if f.getcomptype() in (b"ULAW", b"ulaw", b"ALAW", b"alaw", b"G722") else self.__endianness  # decompressed samples are in the byte order of the machine
             signed = sample_mask.islower()  # specifies, if the integers in the file are signed or not
             channels = allocate_array(shape=(number_of_channels, number_of_samples))
             total_chunk_size = (number_of_channels * chunk_size)
-            mask = f"{self.__endianness}{total_chunk_size}{sample_mask}"
+            mask = f"{endianness}{total_chunk_size}{sample_mask}"
             factor = 1.0 / (2 ** (8 * f.getsampwidth() - 1))    # maps the maximum value of the integers from the file to 1.0
             i = 0
             while i + chunk_size < number_of_samples:
@@ -225,7 +226,7 @@ class StandardLibraryReader:
             remaining_samples = number_of_samples - i
             if remaining_samples:
                 remaining_chunk_size = (number_of_channels * remaining_samples)
-                remaining_mask = f"{self.__endianness}{remaining_chunk_size}{sample_mask}"
+                remaining_mask = f"{endianness}{remaining_chunk_size}{sample_mask}"
                 chunk = struct.unpack(remaining_mask, f.readframes(remaining_samples))
                 decoded = numpy.multiply(chunk, factor)
                 for c in range(number_of_channels):
-- 
2.43.0


From c30f1295098f73a011614c7d0e14d8f9d2810a72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:04 +0000
Subject: [PATCH 14/30] fix: raise the documented ValueError, when no library
 for an automatically detected format is available

---
 sumpf/_internal/_persistence/_auto_writer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sumpf/_internal/_persistence/_auto_writer.py b/sumpf/_internal/_persistence/_auto_writer.py
index 734dbf1..e6a12e4 100644
--- a/sumpf/_internal/_persistence/_auto_writer.py
+++ b/sumpf/_internal/_persistence/_auto_writer.py
@@ -83,6 +83,6 @@ class AutoWriter:
                 else:
                     self.__extensions.setdefault(extension, []).append(writer)
                     return
-            raise ImportError(f"no library found for writing to a {extension}-file")
+            raise ValueError(f"no library found for writing to a {extension}-file")
         # if no compatible writer is associated with the file extension, raise an error
         raise ValueError(f"file format for extension '{extension}' cannot be determined")
-- 
2.43.0


From c285fc4deda3375432d04a7279974217ae4d586b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:04 +0000
Subject: [PATCH 15/30] fix: make the representation of the sub-classes of
 Filter evaluable

---
 sumpf/_data/_filters/_base/_filter.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/sumpf/_data/_filters/_base/_filter.py b/sumpf/_data/_filters/_base/_filter.py
index 028bc70..09ac463 100644
--- a/sumpf/_data/_filters/_base/_filter.py
+++ b/sumpf/_data/_filters/_base/_filter.py
@@ -180,8 +180,7 @@ class Filter:
 
         :returns: a potentially very long string
         """
-        return (f"{self.__class__.__name__}(transfer_functions={self.__transfer_functions!r}, "
-                f"labels={self.__labels})")
+        return f"Filter(transfer_functions={self.__transfer_functions!r}, labels={self.__labels})"
 
     def __eq__(self, other):
         """Operator overload for comparing this filter to another object with ``==``"""
-- 
2.43.0


From cc52902c94cd325bde2553622a7d29b98daf047c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:45 +0000
Subject: [PATCH 16/30] fix: compare filter terms with different numbers of
 bands

---
 sumpf/_data/_filters/_base/_terms/_primitive.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sumpf/_data/_filters/_base/_terms/_primitive.py b/sumpf/_data/_filters/_base/_terms/_primitive.py
index 4a194a5..a567bcc 100644
--- a/sumpf/_data/_filters/_base/_terms/_primitive.py
+++ b/sumpf/_data/_filters/_base/_terms/_primitive.py
@@ -512,8 +512,8 @@ class Bands(Term):
             return False
         elif (self.interpolation != other.interpolation or
               self.extrapolation != other.extrapolation or
-              numpy.not_equal(self.xs, other.xs).any() or
-              numpy.not_equal(self.ys, other.ys).any()):
+              not numpy.array_equal(self.xs, other.xs) or
+              not numpy.array_equal(self.ys, other.ys)):
             return False
         return super().__eq__(other)
 
-- 
2.43.0


From 57eed58f5d8ea74d335a008f82c579d91ee99465 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:45 +0000
Subject: [PATCH 17/30] fix: make sweeps picklable

---
 sumpf/_data/_signals/_sweep.py | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/sumpf/_data/_signals/_sweep.py b/sumpf/_data/_signals/_sweep.py
index d25717b..7566998 100644
--- a/sumpf/_data/_signals/_sweep.py
+++ b/sumpf/_data/_signals/_sweep.py
@@ -17,6 +17,7 @@
 """Contains classes for exponential sweep signals."""
 
 import collections
+import functools
 import math
 import numpy
 import sumpf._internal as sumpf_internal
@@ -66,6 +67,20 @@ def exponential_sweep_parameters(start_frequency, stop_frequency, interval, samp
     return start, stop, t, sweep_duration, sweep_offset, l, a
 
 
+def linear_frequency(tau, frequency, slope, sweep_offset):
+    """Computes the instantaneous frequency of a linear sweep. In contrast to a
+    ``lambda``, this function does not prevent the pickling of the sweep.
+    """
+    return frequency + slope * (tau - sweep_offset)
+
+
+def exponential_frequency(tau, frequency, l, sweep_offset):
+    """Computes the instantaneous frequency of an exponential sweep. In contrast
+    to a ``lambda``, this function does not prevent the pickling of the sweep.
+    """
+    return frequency * math.exp((tau - sweep_offset) / l)
+
+
 def apply_delay(channels, sampling_rate, delay, out):
     """A helper function, that applies a delay to signal channels by multiplying
     with ``exp(2j * pi * f * delay)`` in the frequency domain
@@ -286,7 +301,7 @@ class LinearSweep(Sweep):
                        channels=channels,
                        sampling_rate=sampling_rate,
                        offset=0,
-                       function=lambda tau: start_frequency + k * (tau - sweep_offset))
+                       function=functools.partial(linear_frequency, frequency=start_frequency, slope=k, sweep_offset=sweep_offset))
 
 
 class InverseLinearSweep(Sweep):
@@ -353,7 +368,7 @@ class InverseLinearSweep(Sweep):
                        channels=channels,
                        sampling_rate=sampling_rate,
                        offset=-stop - start,
-                       function=lambda tau: stop_frequency - k * (tau - sweep_offset))
+                       function=functools.partial(linear_frequency, frequency=stop_frequency, slope=-k, sweep_offset=sweep_offset))
 
 ######################
 # exponential sweeps #
@@ -406,7 +421,7 @@ class ExponentialSweep(BaseExponentialSweep):
                                       channels=channels,
                                       sampling_rate=sampling_rate,
                                       offset=0,
-                                      function=lambda tau: start_frequency * math.exp((tau - sweep_offset) / l),
+                                      function=functools.partial(exponential_frequency, frequency=start_frequency, l=l, sweep_offset=sweep_offset),
                                       l=l)
 
 
@@ -487,5 +502,5 @@ class InverseExponentialSweep(BaseExponentialSweep):
                                       channels=channels,
                                       sampling_rate=sampling_rate,
                                       offset=-stop - start,
-                                      function=lambda tau: stop_frequency * math.exp((-tau + sweep_offset) / l),
+                                      function=functools.partial(exponential_frequency, frequency=stop_frequency, l=-l, sweep_offset=sweep_offset),
                                       l=l)
-- 
2.43.0


From bb87e07a8e39a5938bcdea83fc1577ab26eb8816 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:00 +0000
Subject: [PATCH 18/30] fix: store complex parameters of filter terms in JSON
 files

---
 sumpf/_data/_filters/_base/_functions.py       | 18 +++++++++++++++++-
 .../_data/_filters/_base/_terms/_primitive.py  |  6 +++---
 .../_internal/_persistence/_filter_readers.py  |  4 ++--
 3 files changed, 22 insertions(+), 6 deletions(-)

diff --git a/sumpf/_data/_filters/_base/_functions.py b/sumpf/_data/_filters/_base/_functions.py
index 2c22ebf..d8d5dcc 100644
--- a/sumpf/_data/_filters/_base/_functions.py
+++ b/sumpf/_data/_filters/_base/_functions.py
@@ -17,8 +17,9 @@
 """Contains helper functions for defining filters"""
 
 import math
+import numpy
 
-__all__ = ("frequency_scaling", "copy_to_out")
+__all__ = ("frequency_scaling", "copy_to_out", "as_serializable")
 
 
 def frequency_scaling(cutoff_frequency, highpass):
@@ -49,3 +50,18 @@ def copy_to_out(result, out):
     else:
         out[:] = result
         return out
+
+
+def as_serializable(values):
+    """Converts complex parameters of terms to a dictionary with the real and the
+    imaginary parts, so that they can be stored in a JSON file.
+
+    :param values: a number or a sequence of numbers
+    :returns: a dictionary, if the given values are complex, ``values`` otherwise
+    """
+    if numpy.iscomplexobj(values):
+        array = numpy.asarray(values)
+        return {"real": array.real.tolist(),
+                "imaginary": array.imag.tolist()}
+    else:
+        return values
diff --git a/sumpf/_data/_filters/_base/_terms/_primitive.py b/sumpf/_data/_filters/_base/_terms/_primitive.py
index a567bcc..feb9b9a 100644
--- a/sumpf/_data/_filters/_base/_terms/_primitive.py
+++ b/sumpf/_data/_filters/_base/_terms/_primitive.py
@@ -162,7 +162,7 @@ class Constant(Term):
     def as_dict(self):
         """Returns a dictionary serialization of this term."""
         return {"type": "Constant",
-                "value": self.value}
+                "value": functions.as_serializable(self.value)}
 
 
 class Polynomial(Term):
@@ -305,7 +305,7 @@ class Polynomial(Term):
     def as_dict(self):
         """Returns a dictionary serialization of this term."""
         return {"type": "Polynomial",
-                "coefficients": tuple(self.coefficients),
+                "coefficients": functions.as_serializable(tuple(self.coefficients)),
                 "transform": self.transform}
 
 
@@ -381,7 +381,7 @@ class Exp(Term):
     def as_dict(self):
         """Returns a dictionary serialization of this term."""
         return {"type": "Exp",
-                "coefficient": self.coefficient,
+                "coefficient": functions.as_serializable(self.coefficient),
                 "transform": self.transform}
 
 
diff --git a/sumpf/_internal/_persistence/_filter_readers.py b/sumpf/_internal/_persistence/_filter_readers.py
index 88b7fef..980cbc1 100644
--- a/sumpf/_internal/_persistence/_filter_readers.py
+++ b/sumpf/_internal/_persistence/_filter_readers.py
@@ -66,10 +66,10 @@ def term_from_dict(dictionary):
                     real = parameter["real"]
                     imaginary = parameter["imaginary"]
                     a = numpy.empty(shape=numpy.shape(real), dtype=numpy.complex128)
-                    a[:] = imaginary
+                    a[...] = imaginary
                     a *= 1j
                     a += real
-                    parameters[name] = a
+                    parameters[name] = a[()]    # scalars shall not be stored in an array
                 else:
                     parameters[name] = parameter
             elif isinstance(parameter, collections.abc.Iterable):
-- 
2.43.0


From 522ea18679fcf51ea219aef73cf9e1a7a4f1d364 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:16 +0000
Subject: [PATCH 19/30] fix: report all errors of the disk when loading files
 with the soundfile library

---
 sumpf/_internal/_persistence/_signal_readers.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/sumpf/_internal/_persistence/_signal_readers.py b/sumpf/_internal/_persistence/_signal_readers.py
index 1d5f434..2240096 100644
--- a/sumpf/_internal/_persistence/_signal_readers.py
+++ b/sumpf/_internal/_persistence/_signal_readers.py
@@ -18,6 +18,7 @@
 
 import aifc
 import csv
+import io
 import json
 import os
 import pickle
@@ -277,7 +278,9 @@ class SoundfileReader(Reader):
         :returns: a :class:`~sumpf.Signal` instance
         """
         import soundfile  # pylint: disable=import-outside-toplevel; having this as a top-level import would make all writers unavailable, if the soundfile library is not installed
-        with soundfile.SoundFile(path) as f:
+        with open(path, "rb") as f:
+            buffer = io.BytesIO(f.read())   # when reading from a file, soundfile ignores some of the disk's errors
+        with soundfile.SoundFile(buffer) as f:
             channels = allocate_array(shape=(f.channels, f.frames))
             channels.transpose()[:] = f.read().reshape((f.frames, f.channels))
             filename = os.path.split(path)[-1]
-- 
2.43.0


From b79b5dc6da756f2c8e8c993649c9f18792d6f0f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:31 +0000
Subject: [PATCH 20/30] fix: do not load a file with the reader for another
 format, after the operating system has failed to read it

---
 sumpf/_internal/_persistence/_functions.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/sumpf/_internal/_persistence/_functions.py b/sumpf/_internal/_persistence/_functions.py
index 61e7404..3a7c23c 100644
--- a/sumpf/_internal/_persistence/_functions.py
+++ b/sumpf/_internal/_persistence/_functions.py
@@ -53,6 +53,7 @@ def read_file(path, readers, reader_base_class):  # noqa; pylint: disable=too-ma
         try:
             result = reader(path)
         except Exception as e:  # pylint: disable=broad-except; if anything goes wrong, the reading shall be attempted with another reader
+            check_disk(e, path)
             exception = e if exception is None else exception
         else:
             return result
@@ -68,6 +69,7 @@ def read_file(path, readers, reader_base_class):  # noqa; pylint: disable=too-ma
                 try:
                     result = reader(path)
                 except Exception as e:  # pylint: disable=broad-except; if anything goes wrong, the reading shall be attempted with another reader
+                    check_disk(e, path)
                     exception = e if exception is None else exception
                 else:
                     return result
@@ -82,6 +84,7 @@ def read_file(path, readers, reader_base_class):  # noqa; pylint: disable=too-ma
                 try:
                     result = reader(path)
                 except Exception as e:  # pylint: disable=broad-except; if anything goes wrong, the reading shall be attempted with another reader
+                    check_disk(e, path)
                     exception = e if exception is None else exception
                 else:
                     readers_list.append(reader)
@@ -90,6 +93,19 @@ def read_file(path, readers, reader_base_class):  # noqa; pylint: disable=too-ma
     raise ValueError(f"failed to read file '{path}'") from exception
 
 
+def check_disk(exception, path):
+    """A helper function for :func:`read_file`, that raises an error, if an attempt
+    to read a file has failed, because the operating system could not access the
+    file. In this case, other readers must not be tried, because they might load
+    the file with a wrong format, if it is accessible again.
+
+    :param exception: the exception, with which the attempt to read the file has failed
+    :param path: the path to the file
+    """
+    if isinstance(exception, OSError) and exception.errno is not None:
+        raise ValueError(f"failed to read file '{path}'") from exception
+
+
 def get_writer(file_format, writers, writer_base_class):
     """Returns a writer class for the given file format. This function mainly
     exists to catch ImportErrors, if a writer requires a missing library, and
-- 
2.43.0


From d6a72470f5535a2954013d5e11bd353e0a16df23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:42 +0000
Subject: [PATCH 21/30] fix: do not load short binary files as empty csv files

---
 sumpf/_internal/_persistence/_signal_readers.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sumpf/_internal/_persistence/_signal_readers.py b/sumpf/_internal/_persistence/_signal_readers.py
index 2240096..c002c70 100644
--- a/sumpf/_internal/_persistence/_signal_readers.py
+++ b/sumpf/_internal/_persistence/_signal_readers.py
@@ -109,6 +109,8 @@ class CsvReader(Reader):
             rows = []
             time_samples = []
             first_row = next(reader)
+            if any("\0" in cell for cell in first_row):     # Python versions before 3.11 raise an error, when a csv file contains a NUL character
+                raise ValueError("Binary files are not csv files.")
             try:
                 time_samples.append(float(first_row[0]))
                 rows.append([float(c) for c in first_row[1:]])
-- 
2.43.0


From cb03b426efe373c722a3a89fcb5beaa063c74b93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:02 +0000
Subject: [PATCH 22/30] fix: compute the level for the middle of the signal,
 when the integration interval is as long as the signal

---
 sumpf/_data/_signals/_signal.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/sumpf/_data/_signals/_signal.py b/sumpf/_data/_signals/_signal.py
index cb9a430..97348ba 100644
--- a/sumpf/_data/_signals/_signal.py
+++ b/sumpf/_data/_signals/_signal.py
@@ -643,11 +643,12 @@ class Signal(SampledData):
                     numpy.sqrt(numpy.convolve(s, window, mode="same")[a:b], out=c)
                 if not pad:
                     # compute a compensation for the start and the end of the level signal, where the convolution has assumed a zero padding
+                    half_length = (self._length + 1) // 2
                     correction = numpy.empty(self._length)
-                    correction[0:half_window_length] = numpy.linspace(1 + half_window_length_float,
-                                                                      half_window_length + half_window_length_float,
-                                                                      half_window_length)
-                    half_correction = correction[0:(self._length + 1) // 2]
+                    correction[0:half_length] = numpy.linspace(1 + half_window_length_float,
+                                                               half_length + half_window_length_float,
+                                                               half_length)
+                    half_correction = correction[0:half_length]
                     numpy.clip(half_correction, a_min=0, a_max=self._length, out=half_correction)
                     numpy.divide(window_length, half_correction, out=half_correction)
                     numpy.sqrt(half_correction, out=half_correction)
-- 
2.43.0


From d8b25b497905b75caffb6d4603b901040d0a28b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:02 +0000
Subject: [PATCH 23/30] fix: do not modify the impulse response, from which the
 impulse response of a harmonic is cut out

---
 sumpf/_data/_signals/_sweep.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sumpf/_data/_signals/_sweep.py b/sumpf/_data/_signals/_sweep.py
index 7566998..d80e762 100644
--- a/sumpf/_data/_signals/_sweep.py
+++ b/sumpf/_data/_signals/_sweep.py
@@ -240,10 +240,12 @@ class BaseExponentialSweep(Sweep):
                 else:
                     channels = channels[:, 0:length]
         elif remaining_delay is not None:
+            new_channels = sumpf_internal.allocate_array(shape=channels.shape)
             apply_delay(channels=channels,
                         sampling_rate=sampling_rate,
                         delay=remaining_delay,
-                        out=channels)
+                        out=new_channels)
+            channels = new_channels
         # return the impulse response of the harmonic
         h = sumpf_internal.counting_number(harmonic)
         return Signal(channels=channels,
-- 
2.43.0


From 1f3e68e432486f1cfc5e083fbd307f9f50d660a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:31 +0000
Subject: [PATCH 24/30] fix: sample the transfer functions of a filter's
 channels independently of each other

---
 sumpf/_data/_filters/_base/_filter.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/sumpf/_data/_filters/_base/_filter.py b/sumpf/_data/_filters/_base/_filter.py
index 09ac463..622365f 100644
--- a/sumpf/_data/_filters/_base/_filter.py
+++ b/sumpf/_data/_filters/_base/_filter.py
@@ -150,11 +150,12 @@ class Filter:
                   is a number or an array, if ``frequencies`` is a sequence.
         """
         if not numpy.shape(frequencies):    # create an array if frequencies is a scalar value
-            s = S(numpy.reshape(frequencies, (1, 1)))
-            return tuple(tf(s)[0, 0] for tf in self.__transfer_functions)
+            frequencies = numpy.reshape(frequencies, (1, 1))
+            variables = [S(frequencies) for _ in self.__transfer_functions]     # one for each channel, because the instances store, if they have been transformed
+            return tuple(tf(s)[0, 0] for tf, s in zip(self.__transfer_functions, variables))
         else:
-            s = S(frequencies)
-            return tuple(tf(s) for tf in self.__transfer_functions)
+            variables = [S(frequencies) for _ in self.__transfer_functions]
+            return tuple(tf(s) for tf, s in zip(self.__transfer_functions, variables))
 
     def __len__(self):
         """Operator overload for retrieving the filter's number of channels with
@@ -412,9 +413,9 @@ class Filter:
         :returns: a :class:`~sumpf.Spectrum` instance
         """
         frequencies = numpy.linspace(0.0, (length - 1) * resolution, length)
-        s = S(frequencies)
         channels = sumpf_internal.allocate_array(shape=(len(self.__transfer_functions), length), dtype=numpy.complex128)
         for tf, c in zip(self.__transfer_functions, channels):
+            s = S(frequencies)  # each channel needs its own instance, because it stores, if it has been transformed
             tf(s, out=c)
         return sumpf.Spectrum(channels=channels, resolution=resolution, labels=self.__labels)
 
-- 
2.43.0


From b5c01eeadc370b89b9309e518fc02ee70d46cbd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:02 +0000
Subject: [PATCH 25/30] fix: suppress the warnings about divisions by zero in a
 thread-safe way

---
 sumpf/_data/_filters/_base/_terms/_binary.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/sumpf/_data/_filters/_base/_terms/_binary.py b/sumpf/_data/_filters/_base/_terms/_binary.py
index 92600f5..b560f29 100644
--- a/sumpf/_data/_filters/_base/_terms/_binary.py
+++ b/sumpf/_data/_filters/_base/_terms/_binary.py
@@ -16,7 +16,6 @@
 
 """Contains the classes for terms, that are composed of multiple other terms."""
 
-import warnings
 import numpy
 from ._base import Term
 from ._primitive import Constant
@@ -427,8 +426,7 @@ class Quotient(Term):
                     be stored (in order to save memory allocations)
         :returns: the computed transfer function as an array of complex values
         """
-        with warnings.catch_warnings():
-            warnings.simplefilter(action="ignore", category=RuntimeWarning)
+        with numpy.errstate(all="ignore"):  # warnings.catch_warnings() would not be thread-safe
             return numpy.divide(self.numerator(s),
                                 self.denominator(s),
                                 out=out)
-- 
2.43.0


From 0830ddb378b04fb0269d6a9bf2ca2394df12005f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:02 +0000
Subject: [PATCH 26/30] fix: allocate the array for concatenating with a type,
 that can store the samples of all data sets

---
 sumpf/_blocks/_concatenate.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/sumpf/_blocks/_concatenate.py b/sumpf/_blocks/_concatenate.py
index e6da5c6..2242d86 100644
--- a/sumpf/_blocks/_concatenate.py
+++ b/sumpf/_blocks/_concatenate.py
@@ -16,6 +16,7 @@
 
 """Contains the :class:`~sumpf.Concatenate` class."""
 
+import numpy
 import connectors
 import sumpf
 import sumpf._internal as sumpf_internal
@@ -72,13 +73,14 @@ class Concatenate:
             # allocate an array for the concatenated channels and copy the first data set
             offset = min(i[0] for i in indices)
             length = max(i[1] for i in indices) - offset
+            dtype = numpy.result_type(numpy.float64, *(i[2] for i in indices))  # a type, that can store the samples of all data sets
             start, stop, dataset_channels = indices[0]
             start -= offset
             stop -= offset
             if len(dataset_channels.shape) == 2:
                 signal = True
                 channels = sumpf_internal.allocate_array(shape=(number_of_channels, length),
-                                                         dtype=dataset_channels.dtype)
+                                                         dtype=dtype)
                 channels[0:len(dataset_channels), start:stop] = dataset_channels
                 if len(dataset_channels) < number_of_channels:
                     channels[len(dataset_channels):, start:stop] = 0.0
@@ -86,7 +88,7 @@ class Concatenate:
                 signal = False
                 number_of_frequencies = max(i[2].shape[1] for i in indices)
                 channels = sumpf_internal.allocate_array(shape=(number_of_channels, number_of_frequencies, length),
-                                                         dtype=dataset_channels.dtype)
+                                                         dtype=dtype)
                 l, f = dataset_channels.shape[0:2]
                 channels[0:l, 0:f, start:stop] = dataset_channels
                 if f < number_of_frequencies:
-- 
2.43.0


From db218ac69080bc74311d1e1fd21edc4f423ca34f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:23 +0000
Subject: [PATCH 27/30] fix: do not hang, when data sets are combined with
 arrays or data sets of another type or when they are iterated over

---
 sumpf/_data/_filters/_base/_filter.py | 4 ++++
 sumpf/_data/_sampled_data.py          | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/sumpf/_data/_filters/_base/_filter.py b/sumpf/_data/_filters/_base/_filter.py
index 622365f..100f576 100644
--- a/sumpf/_data/_filters/_base/_filter.py
+++ b/sumpf/_data/_filters/_base/_filter.py
@@ -116,6 +116,10 @@ class Filter:
     Product = terms.Product.factory
     Quotient = terms.Quotient.factory
 
+    # NumPy shall leave the operators to this class instead of treating its instances as endless sequences
+    __array_ufunc__ = None
+    __iter__ = None
+
     # supported file formats
     file_formats = sumpf_internal.filter_writers.FilterFormats  #: an enumeration with file formats, whose flags can be passed to :meth:`~sumpf.Filter.save`
 
diff --git a/sumpf/_data/_sampled_data.py b/sumpf/_data/_sampled_data.py
index 1bb5c52..c415b29 100644
--- a/sumpf/_data/_sampled_data.py
+++ b/sumpf/_data/_sampled_data.py
@@ -23,6 +23,10 @@ import sumpf._internal as sumpf_internal
 class SampledData:
     """Base class for data containers with channels of sampled data and labels."""
 
+    # NumPy shall leave the operators to this class instead of treating its instances as endless sequences
+    __array_ufunc__ = None
+    __iter__ = None
+
     def __init__(self, channels, labels):
         """
         :param channels: a two-dimensional :func:`numpy.array`
-- 
2.43.0


From 563de8b3f90fae426dde812edd5570290036868e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:23 +0000
Subject: [PATCH 28/30] fix: do not hang, when computing the index for a
 negative number in an empty array

---
 sumpf/_internal/_indexing.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sumpf/_internal/_indexing.py b/sumpf/_internal/_indexing.py
index 009e393..890d342 100644
--- a/sumpf/_internal/_indexing.py
+++ b/sumpf/_internal/_indexing.py
@@ -39,8 +39,8 @@ def index(i, length):
         i = int(round(i * length))
     elif isinstance(i, collections.abc.Iterable):
         return [index(j, length) for j in i]
-    while i < 0:
-        i += length
+    if i < 0:
+        i = i % length if length else 0
     return i
 
 
-- 
2.43.0


From f0a9fa28dee3ea971564e126261336514d2a447a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:52 +0000
Subject: [PATCH 29/30] fix: avoid warnings, that depend on uninitialised
 memory, when evaluating transformed filters at 0Hz

---
 sumpf/_data/_filters/_base/_s.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sumpf/_data/_filters/_base/_s.py b/sumpf/_data/_filters/_base/_s.py
index f7109db..eb1d32a 100644
--- a/sumpf/_data/_filters/_base/_s.py
+++ b/sumpf/_data/_filters/_base/_s.py
@@ -102,7 +102,7 @@ class TransformedS:
             zero = s == 0
             if zero.any():  # avoid zero division errors by defining the result of a transformed term to be zero at s=0
                 self.__invalid = zero.nonzero()
-                self.__s = numpy.divide(1.0, s, where=(s != 0))
+                self.__s = numpy.divide(1.0, s, out=numpy.ones_like(s), where=(s != 0))
             else:
                 self.__invalid = None
                 self.__s = numpy.divide(1.0, s)
-- 
2.43.0


From 09c71a787836f59b55aaefd991bb8e7536c1d4db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:12 +0000
Subject: [PATCH 30/30] fix: negative frequencies disabled the logarithmic
 extrapolation at the other frequencies

With a negative frequency, the minimum of the logarithmic frequencies was NaN,
so that the extrapolation of all other frequencies was skipped.
---
 sumpf/_internal/_interpolation.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/sumpf/_internal/_interpolation.py b/sumpf/_internal/_interpolation.py
index 1120521..be645e7 100644
--- a/sumpf/_internal/_interpolation.py
+++ b/sumpf/_internal/_interpolation.py
@@ -152,13 +152,13 @@ def _linear(x, xs, ys, scalar):
                 return numpy.interp(x, xp=xs, fp=ys)
         else:
             result = numpy.interp(x, xp=xs, fp=ys)
-            if x.min() < xs[0]:
-                mask = x < xs[0]
+            mask = x < xs[0]
+            if mask.any():
                 m = (ys[1] - ys[0]) / (xs[1] - xs[0])
                 n = ys[0] - m * xs[0]
                 result[mask] = m * x[mask] + n
-            if x.max() > xs[-1]:
-                mask = x > xs[-1]
+            mask = x > xs[-1]
+            if mask.any():
                 m = (ys[-1] - ys[-2]) / (xs[-1] - xs[-2])
                 n = ys[-1] - m * xs[-1]
                 result[mask] = m * x[mask] + n
-- 
2.43.0

