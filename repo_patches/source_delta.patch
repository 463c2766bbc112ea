From 00e9957b9db0c827163c14c05ca9bcbc90be430e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:20:27 +0000
Subject: [PATCH 001/185] fix: flush the ring buffers in time order

FrameBufferBase.flush() walked the segments in the order in which their first
frame arrived, so out-of-order data came out of the buffer out of order.
---
 lsl/reader/buffer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lsl/reader/buffer.py b/lsl/reader/buffer.py
index b2f7c7d..0fcf6f9 100644
--- a/lsl/reader/buffer.py
+++ b/lsl/reader/buffer.py
@@ -360,7 +360,7 @@ class FrameBufferBase(object):
             the LWA-SV COR frames out of the buffer
         """
         
-        for key in list(self.buffer):
+        for key in sorted(self.buffer):
             yield self.get(key_to_return=key)
             
     def reset(self):
-- 
2.43.0


From e4baa9324f8d4f18dea911b6b98f790dcea70f02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:20:51 +0000
Subject: [PATCH 002/185] fix: zero-fill ring buffer segments that hold
 duplicate frames

get() compared the raw number of frames with the number expected, so a segment
in which a duplicate stood in for a missing frame was returned as complete (or
only partly filled), with the duplicate still in it, and the statistics were
off by the number of duplicates.  For COR the duplicate check also ignored the
start channel and threw away good data.
---
 lsl/reader/buffer.py | 70 +++++++++++++++++++++-----------------------
 1 file changed, 33 insertions(+), 37 deletions(-)

diff --git a/lsl/reader/buffer.py b/lsl/reader/buffer.py
index 0fcf6f9..7a2a631 100644
--- a/lsl/reader/buffer.py
+++ b/lsl/reader/buffer.py
@@ -302,39 +302,29 @@ class FrameBufferBase(object):
             key_to_return = self.peek()
             if key_to_return is None:
                 return None
-        returnCount = len(self.buffer[key_to_return])
         
-        if returnCount == self.nFrames:
-            ## Everything is good (Is it really???)
+        # Weed out any duplicate frames, keeping the first one received
+        output = deque()
+        frameIDs = set()
+        for frame in self.buffer[key_to_return]:
+            newID = self._get_frame_id(frame)
+            if newID not in frameIDs:
+                output.append(frame)
+                frameIDs.add(newID)
+            else:
+                self.dropped += 1
+                
+        if len(output) >= self.nFrames:
+            ## Everything is good
             self.full = self.full + 1
-            
-            output = self.buffer[key_to_return]
-        elif returnCount < self.nFrames:
+        else:
             ## There are too few frames
             self.partial = self.partial + 1
-            self.missing = self.missing + (self.nFrames - returnCount)
-            
-            output = self.buffer[key_to_return]
+            self.missing = self.missing + (self.nFrames - len(output))
             
             ## Fill in the missing frames
             output.extend( map(lambda x: self.create_fill(key_to_return, x), self._get_missing_list(key_to_return)) )
-        else:
-            ## There are too many frames
-            self.full = self.full + 1
             
-            output = []
-            frameIDs = []
-            for frame in self.buffer[key_to_return]:
-                try:
-                    newID = frame.id
-                except AttributeError:
-                    newID = frame.header.first_chan
-                if newID not in frameIDs:
-                    output.append(frame)
-                    frameIDs.append(newID)
-                else:
-                    self.dropped += 1
-                    
         del(self.buffer[key_to_return])
         self.done.append(key_to_return)
         
@@ -384,24 +374,30 @@ class FrameBufferBase(object):
         
         return False if len(self.buffer) else True
         
+    def _get_frame_id(self, frame):
+        """
+        Return what identifies a frame within a segment of the buffer.  This
+        matches the entries in the list of possible frames.
+        """
+        
+        if hasattr(self, 'frameID'):
+            return self.frameID(frame)
+        elif self.mode == 'VDIF':
+            return frame.id[1]
+        elif self.mode in ('TBF', 'TBX'):
+            return frame.header.first_chan
+        elif self.mode == 'COR':
+            return frame.id+(frame.header.first_chan,)
+        else:
+            return frame.id
+            
     def _get_missing_list(self, key):
         """
         Create a list of tuples of missing frame information.
         """
         
         # Find out what frames we have
-        if hasattr(self, 'frameID'):
-            fnc = lambda x: self.frameID(x)
-        else:
-            if self.mode == 'VDIF':
-                fnc = lambda x: x.id[1]
-            elif self.mode in ('TBF', 'TBX'):
-                fnc = lambda x: x.header.first_chan
-            elif self.mode == 'COR':
-                fnc = lambda x: x.id+(x.header.first_chan,)
-            else:
-                fnc = lambda x: x.id
-        frameList = set(map(fnc, self.buffer[key]))
+        frameList = set(map(self._get_frame_id, self.buffer[key]))
         
         # Compare the existing list with the possible list stored in the 
         # FrameBufferBase object to build a list of missing frames.
-- 
2.43.0


From 2a1ae8eebfffd0876a9d189f536a9bbbb60a5c1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:20:51 +0000
Subject: [PATCH 003/185] fix: order COR frames by start channel and baseline
 when reordering

_cmp_frames folded the two stand numbers into 2*(stand0-1)+stand1, for which
different baselines collide, and ignored the start channel that the COR buffer
says it orders by.
---
 lsl/reader/buffer.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/lsl/reader/buffer.py b/lsl/reader/buffer.py
index 7a2a631..0b20f27 100644
--- a/lsl/reader/buffer.py
+++ b/lsl/reader/buffer.py
@@ -61,8 +61,13 @@ def _cmp_frames(x, y):
     try:
         len1 = len(idsX)
         if len1 == 2:
-            sX = 2*(idsX[0]-1) + idsX[1]
-            sY = 2*(idsY[0]-1) + idsY[1]
+            try:
+                # COR - start channel first
+                sX = (x.header.first_chan,) + tuple(idsX)
+                sY = (y.header.first_chan,) + tuple(idsY)
+            except AttributeError:
+                sX = tuple(idsX)
+                sY = tuple(idsY)
         else:
             sX = 16777216*(idsX[0]-1) + 4096*(idsX[1]-1) + idsX[2]
             sY = 16777216*(idsY[0]-1) + 4096*(idsY[1]-1) + idsY[2]
-- 
2.43.0


From f9aef18a2af57d4768a9c799626829ae88e66fc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:20:51 +0000
Subject: [PATCH 004/185] fix: report dropped frames from the ring buffer's
 append()

append() is documented to return False for a frame that is too late but it
always returned True.
---
 lsl/reader/buffer.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lsl/reader/buffer.py b/lsl/reader/buffer.py
index 0b20f27..6ecb218 100644
--- a/lsl/reader/buffer.py
+++ b/lsl/reader/buffer.py
@@ -249,12 +249,14 @@ class FrameBufferBase(object):
             frames = deque([frames,])
             
         # Loop over frames
+        added = True
         for frame in frames:
             # Make sure that it is not in the `done' list.  If it is,
             # disgaurd the frame and make a note of it.
             fom = self.get_figure_of_merit(frame)
             if fom <= self.done[-1]:
                 self.dropped += 1
+                added = False
                 continue
                 
             # If that time tag hasn't been done yet, add it to the 
@@ -265,14 +267,14 @@ class FrameBufferBase(object):
                 self.buffer[fom] = deque()
                 self.buffer[fom].append(frame)
                 
-        return True
+        return added
         
     def put(self, *args, **kwds):
         """
         Synonymous with 'append'.
         """
         
-        self.append(*args, **kwds)
+        return self.append(*args, **kwds)
         
     def peek(self, require_filled=True):
         """
-- 
2.43.0


From 3602ebb8734eca53a449c017b01cb3a8f432f4bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:20:51 +0000
Subject: [PATCH 005/185] fix: keep ignoring bad DRX time tags after a ring
 buffer reset

reset() forgot that the DRX and DRX8 buffers ignore everything before 1980, so
a reset buffer did not behave like a new one.
---
 lsl/reader/buffer.py | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/lsl/reader/buffer.py b/lsl/reader/buffer.py
index 6ecb218..05a7b1b 100644
--- a/lsl/reader/buffer.py
+++ b/lsl/reader/buffer.py
@@ -104,6 +104,9 @@ class FrameBufferBase(object):
     
     __metaclass__ = abc.ABCMeta
     
+    # Frames at or before this figure of merit are always dropped
+    _first_done = 0
+    
     def __init__(self, mode='DRX', stands=[], beams=[], tunes=[], pols=[], chans=[], threads=[], nsegments=6, reorder=False):
         """
         Initialize the buffer with a list of:
@@ -153,7 +156,7 @@ class FrameBufferBase(object):
         # The buffer itself
         self.nsegments = nsegments
         self.buffer = OrderedDict()
-        self.done = deque([0,], maxlen=self.nsegments)
+        self.done = deque([self._first_done,], maxlen=self.nsegments)
         
         # Buffer statistics
         self.full = 0		# Number of times a full buffer was emptied
@@ -369,7 +372,7 @@ class FrameBufferBase(object):
         
         self.buffer.clear()
         self.done.clear()
-        self.done.append(0)
+        self.done.append(self._first_done)
         
     def is_empty(self):
         """
@@ -484,13 +487,13 @@ class DRXFrameBuffer(FrameBufferBase):
     
     """
     
+    # Make sure that we ignore packets before 1980
+    # (although I don't really know why this happens sometimes)
+    _first_done = 61849368000000000
+    
     def __init__(self, beams=[], tunes=[1,2], pols=[0, 1], nsegments=20, reorder=False):
         FrameBufferBase.__init__(self, mode='DRX', beams=beams, tunes=tunes, pols=pols, nsegments=nsegments, reorder=reorder)
         
-        # Make sure that we ignore packets before 1980
-        # (although I don't really know why this happens sometimes)
-        self.done[0] = 61849368000000000
-        
     def get_max_frames(self):
         """
         Calculate the maximum number of frames that we expect from 
@@ -588,13 +591,13 @@ class DRX8FrameBuffer(FrameBufferBase):
     
     """
     
+    # Make sure that we ignore packets before 1980
+    # (although I don't really know why this happens sometimes)
+    _first_done = 61849368000000000
+    
     def __init__(self, beams=[], tunes=[1,2], pols=[0, 1], nsegments=20, reorder=False):
         FrameBufferBase.__init__(self, mode='DRX8', beams=beams, tunes=tunes, pols=pols, nsegments=nsegments, reorder=reorder)
         
-        # Make sure that we ignore packets before 1980
-        # (although I don't really know why this happens sometimes)
-        self.done[0] = 61849368000000000
-        
     def get_max_frames(self):
         """
         Calculate the maximum number of frames that we expect from 
-- 
2.43.0


From c0de996f0343a38fb6d55bb3ddfd7c3370df1661 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:29:35 +0000
Subject: [PATCH 006/185] fix: find the size of a COR frame from the frame
 itself

The number of channels per frame was remembered from the last frame read, so
the first frame of a file with larger frames came back truncated and short
files with smaller frames could not be read at all.
---
 lsl/reader/cor.cpp | 146 ++++++++++++++++++---------------------------
 1 file changed, 59 insertions(+), 87 deletions(-)

diff --git a/lsl/reader/cor.cpp b/lsl/reader/cor.cpp
index 73e4070..1b382e5 100644
--- a/lsl/reader/cor.cpp
+++ b/lsl/reader/cor.cpp
@@ -53,38 +53,28 @@ PyObject *cor_method = NULL;
 PyObject *cor_size   = NULL;
 
 
-template<int NCHAN>
-PyObject *read_cor_impl(PyObject *self, PyObject *args) {
+inline Py_ssize_t cor_frame_size(int nchan) {
+    return sizeof(CORHeader)+8+4+2+2+nchan*8*4;
+}
+
+
+PyObject *read_cor(PyObject *self, PyObject *args) {
     PyObject *ph, *buffer, *output, *frame, *fHeader, *fPayload, *temp;
     PyArrayObject *data=NULL;
     int i, nchan;
+    Py_ssize_t nread;
     CORFrame cFrame;
     
-    static constexpr int frameSize = sizeof(CORHeader)+8+4+2+2+NCHAN*8*4;
-    
     if(!PyArg_ParseTuple(args, "OO", &ph, &frame)) {
         PyErr_Format(PyExc_RuntimeError, "Invalid parameters");
-        goto fail;
-    }
-    
-    // Create the output data array
-    npy_intp dims[3];
-    // 32+32-bit Data -> as COR_NCHAN channels, 2 pols @ stand 0, 2 pols @  stand 1
-    dims[0] = NCHAN;
-    dims[1] = 2;
-    dims[2] = 2;
-    data = (PyArrayObject*) PyArray_ZEROS(3, dims, NPY_COMPLEX64, 0);
-    if(data == NULL) {
-        PyErr_Format(PyExc_MemoryError, "Cannot create output array");
-        goto fail;
+        return NULL;
     }
     
-    // Read from the file
+    // Read from the file - enough for the largest possible frame and the sync
+    // word of the frame that follows it
     if( cor_method == NULL ) {
         cor_method = Py_BuildValue("s", "read");
-    }
-    if( cor_size == NULL ) {
-        cor_size = Py_BuildValue("i", frameSize);
+        cor_size = Py_BuildValue("n", cor_frame_size(192) + (Py_ssize_t) sizeof(uint32_t));
     }
     buffer = PyObject_CallMethodObjArgs(ph, cor_method, cor_size, NULL);
     if( buffer == NULL ) {
@@ -93,48 +83,60 @@ PyObject *read_cor_impl(PyObject *self, PyObject *args) {
         } else {
             PyErr_Format(PyExc_AttributeError, "Object does not have a read() method");
         }
-        Py_XDECREF(data);
         return NULL;
-    } else if( PyBytes_GET_SIZE(buffer) != frameSize ) {
+    }
+    nread = PyBytes_GET_SIZE(buffer);
+    memcpy(&cFrame, PyBytes_AS_STRING(buffer), nread);
+    Py_XDECREF(buffer);
+    
+    // Determine the number of channels in the frame from where the next frame
+    // starts.  If there is no next frame assume that nothing has changed.
+    nchan = 0;
+    for(int n : {33, 72, 112, 192}) {
+        if( (nread >= (cor_frame_size(n) + (Py_ssize_t) sizeof(uint32_t))) && validSync5C((uint32_t) cFrame.payload.raw[n*4*2]) ) {
+            nchan = n;
+            break;
+        }
+    }
+    if( nchan == 0 ) {
+        nchan = cached_nchan;
+        if( nread == cor_frame_size(192) ) {
+            nchan = 192;
+        }
+    }
+    if( nread < cor_frame_size(nchan) ) {
         PyErr_Format(EOFError, "End of file encountered during filehandle read");
-        Py_XDECREF(data);
-        Py_XDECREF(buffer);
         return NULL;
     }
-    memcpy(&cFrame, PyBytes_AS_STRING(buffer), frameSize);
-    Py_XDECREF(buffer);
     
-    // Determine the number of channels in the frame
-    if( (NCHAN > 33) && validSync5C((uint32_t) cFrame.payload.raw[33*4*2]) ) {
-        nchan = 33;
-    } else if( (NCHAN > 72) && validSync5C((uint32_t) cFrame.payload.raw[72*4*2]) ) {
-        nchan = 72;
-    } else if( (NCHAN > 112) && validSync5C((uint32_t) cFrame.payload.raw[112*4*2]) ) {
-        nchan = 112;
-    } else {
-        nchan = NCHAN;
+    // Validate
+    if( !validSync5C(cFrame.header.sync_word) ) {
+        temp = PyObject_CallMethod(ph, "seek", "ni", -nread, 1);
+        Py_XDECREF(temp);
+        PyErr_Format(SyncError, "Mark 5C sync word differs from expected");
+        return NULL;
     }
+    cached_nchan = nchan;   // Update for next time
     
-    // If nchan is not what we expect, update the cache and retry with correct size
-    if( nchan != NCHAN ) {
-        cached_nchan = nchan;   // Update for next time
-        Py_XDECREF(cor_size);   // Update for next time
-        cor_size = NULL;        // Force NULL since Py_XDECREF isn't guaranteed to change cor_size
-        PyObject_CallMethod(ph, "seek", "ii", -frameSize, 1);
-        
-        switch(nchan) {
-            case 33:
-                return read_cor_impl<33>(self,args);
-            case 72:
-                return read_cor_impl<72>(self,args);
-            case 112:
-                return read_cor_impl<112>(self,args);
-            case 192:
-                return read_cor_impl<192>(self,args);
-            default:
-                PyErr_Format(SyncError, "Mark 5C sync word differs from expected during mode change");
-                return NULL;
+    // Go back to the end of the frame if we have read too much
+    if( nread > cor_frame_size(nchan) ) {
+        temp = PyObject_CallMethod(ph, "seek", "ni", cor_frame_size(nchan) - nread, 1);
+        if( temp == NULL ) {
+            return NULL;
         }
+        Py_XDECREF(temp);
+    }
+    
+    // Create the output data array
+    npy_intp dims[3];
+    // 32+32-bit Data -> as nchan channels, 2 pols @ stand 0, 2 pols @  stand 1
+    dims[0] = nchan;
+    dims[1] = 2;
+    dims[2] = 2;
+    data = (PyArrayObject*) PyArray_ZEROS(3, dims, NPY_COMPLEX64, 0);
+    if(data == NULL) {
+        PyErr_Format(PyExc_MemoryError, "Cannot create output array");
+        return NULL;
     }
     
     Py_BEGIN_ALLOW_THREADS
@@ -152,29 +154,19 @@ PyObject *read_cor_impl(PyObject *self, PyObject *args) {
     // Fill the data array
     std::complex<float> *a;
     a = (std::complex<float> *) PyArray_DATA(data);
-    memcpy(a, reinterpret_cast<std::complex<float> *>(&cFrame.payload.vis), sizeof(std::complex<float>)*NCHAN*4);
+    memcpy(a, reinterpret_cast<std::complex<float> *>(&cFrame.payload.vis), sizeof(std::complex<float>)*nchan*4);
     if( cFrame.payload.stand0 == cFrame.payload.stand1 ) {
         // Deal with the edge of the triangular matrix that ADP outputs
         // so that we do not get strange values in the output.  These are
         // all auto-correlations and we can just use conjgation to get YX
         // from XY.
-        for(i=0; i<NCHAN; i++) {
+        for(i=0; i<nchan; i++) {
             a[4*i + 1*2 + 0] = std::conj(a[4*i + 0*2 + 1]);
         }
     }
     
     Py_END_ALLOW_THREADS
     
-    // Validate
-    if( !validSync5C(cFrame.header.sync_word) ) {
-        cached_nchan = 192;   // Update for next time
-        Py_XDECREF(cor_size);   // Update for next time
-        cor_size = NULL;
-        PyObject_CallMethod(ph, "seek", "ii", -frameSize, 1);
-        PyErr_Format(SyncError, "Mark 5C sync word differs from expected");
-        goto fail;
-    }
-    
     // Save the data to the frame object
     // 1.  Header
     fHeader = PyObject_GetAttrString(frame, "header");
@@ -230,26 +222,6 @@ PyObject *read_cor_impl(PyObject *self, PyObject *args) {
     Py_XDECREF(data);
     
     return output;
-    
-fail:
-    Py_XDECREF(data);
-    
-    return NULL;
-}
-
-PyObject *read_cor(PyObject *self, PyObject *args) {
-    // Try fast path first with cached nchan
-    switch(cached_nchan) {
-        case 33:
-            return read_cor_impl<33>(self,args);
-        case 72:
-            return read_cor_impl<72>(self,args);
-        case 112:
-            return read_cor_impl<112>(self,args);
-        case 192:
-        default:
-            return read_cor_impl<192>(self,args);
-    }
 }
 
 char read_cor_doc[] = PyDoc_STR(\
-- 
2.43.0


From 059e68f0aa16ad4f22285b610ac971e8e4e435e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:29:35 +0000
Subject: [PATCH 007/185] fix: read TBX frames of every mode at the end of a
 file

Also keep all 32 bits of the first channel and remove references to constants
that do not exist.
---
 lsl/reader/tbx.cpp | 23 +++++++++++++++--------
 lsl/reader/tbx.py  |  4 ++--
 2 files changed, 17 insertions(+), 10 deletions(-)

diff --git a/lsl/reader/tbx.cpp b/lsl/reader/tbx.cpp
index 13be605..3010c9b 100644
--- a/lsl/reader/tbx.cpp
+++ b/lsl/reader/tbx.cpp
@@ -53,7 +53,7 @@ template<int NSTAND, int NCHAN, typename T, NPY_TYPES N>
 PyObject *read_tbx_impl(PyObject *self, PyObject *args) {
     PyObject *ph, *buffer, *output, *frame, *fHeader, *fPayload, *temp;
     PyArrayObject *data;
-    int i, nstand, nchan;
+    int i, nread, nstand, nchan;
     TBXFrame cFrame;
     
     static constexpr int frameSize = sizeof(TBXHeader)+8+NCHAN*NSTAND*2*1;
@@ -78,25 +78,32 @@ PyObject *read_tbx_impl(PyObject *self, PyObject *args) {
             PyErr_Format(PyExc_AttributeError, "Object does not have a read() method");
         }
         return NULL;
-    } else if( PyBytes_GET_SIZE(buffer) != frameSize ) {
-        PyErr_Format(EOFError, "End of file encountered during filehandle read");
-        Py_XDECREF(buffer);
-        return NULL;
     }
-    memcpy(&cFrame, PyBytes_AS_STRING(buffer), frameSize);
+    nread = PyBytes_GET_SIZE(buffer);
+    memcpy(&cFrame, PyBytes_AS_STRING(buffer), nread);
     Py_XDECREF(buffer);
     
     // Determine the number of stands and channels in the frame 
     nstand = __bswap_16(cFrame.header.nstand);
     nchan = __bswap_16(cFrame.header.nchan);
     
+    // If we have come up short check if there is still a complete, smaller frame
+    if( nread != frameSize ) {
+        if( nread < (int) sizeof(TBXHeader) \
+            || !validSync5C(cFrame.header.syncWord) \
+            || nread < (int) sizeof(TBXHeader)+8+nchan*nstand*2*1 ) {
+            PyErr_Format(EOFError, "End of file encountered during filehandle read");
+            return NULL;
+        }
+    }
+    
     // If nstand is not what we expect, update the cache and retry with correct size
     if( nstand != NSTAND || nchan != NCHAN ) {
         cached_nstand = nstand; // Update for next time
         cached_nchan = nchan;
         Py_XDECREF(tbx_size);   // Update for next time
         tbx_size = NULL;        // Force NULL since Py_XDECREF isn't guaranteed to change tbx_size
-        PyObject_CallMethod(ph, "seek", "ii", -frameSize, 1);
+        PyObject_CallMethod(ph, "seek", "ii", -nread, 1);
         
 #define MATCH_TBX_MODE(MNSTAND,MNCHAN) \
     case MNCHAN: \
@@ -207,7 +214,7 @@ PyObject *read_tbx_impl(PyObject *self, PyObject *args) {
     PyObject_SetAttrString(fHeader, "second_count", temp);
     Py_XDECREF(temp);
     
-    temp = Py_BuildValue("h", cFrame.header.first_chan);
+    temp = PyLong_FromUnsignedLong(cFrame.header.first_chan);
     PyObject_SetAttrString(fHeader, "first_chan", temp);
     Py_XDECREF(temp);
     
diff --git a/lsl/reader/tbx.py b/lsl/reader/tbx.py
index 4909ff6..ea2664f 100644
--- a/lsl/reader/tbx.py
+++ b/lsl/reader/tbx.py
@@ -82,7 +82,7 @@ class FrameHeader(FrameHeaderBase):
         """
         
         fC = ndp_common.fC
-        return (np.arange(FRAME_CHANNEL_COUNT, dtype=np.float32)+self.first_chan) * fC
+        return (np.arange(self.nchan, dtype=np.float32)+self.first_chan) * fC
 
 
 class FramePayload(FramePayloadBase):
@@ -203,7 +203,7 @@ def read_frame_ci8(filehandle):
         newFrame = read_tbx_ci8(filehandle, Frame())
         newFrame.payload._data = newFrame.payload.data.view(CI8)
     except gSyncError:
-        mark = filehandle.tell() - FRAME_SIZE
+        mark = filehandle.tell()
         raise SyncError(location=mark)
     except gEOFError:
         raise EOFError
-- 
2.43.0


From 267a7cbaa625bbf6f5e9a54233c9d5266bc7b238 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:29:35 +0000
Subject: [PATCH 008/185] fix: decode complex VDIF data in the 8-bit integer
 reader

The complex path read the int8 samples as floats (past the end of the array),
and the error paths released the read buffer and the data twice.
---
 lsl/reader/vdif.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/lsl/reader/vdif.cpp b/lsl/reader/vdif.cpp
index a69caa9..32b42f3 100644
--- a/lsl/reader/vdif.cpp
+++ b/lsl/reader/vdif.cpp
@@ -210,7 +210,7 @@ PyObject *read_vdif(PyObject *self, PyObject *args, PyObject *kwds) {
         goto fail;
     }
     memcpy(&bHeader, PyBytes_AS_STRING(buffer), sizeof(bHeader));
-    Py_XDECREF(buffer);
+    Py_CLEAR(buffer);
     
     // Fix up various bits in the basic header
     uint32_t nChan;
@@ -249,7 +249,7 @@ PyObject *read_vdif(PyObject *self, PyObject *args, PyObject *kwds) {
             goto fail;
         }
         memcpy(&eHeader, PyBytes_AS_STRING(buffer), sizeof(eHeader));
-        Py_XDECREF(buffer);
+        Py_CLEAR(buffer);
         
     } else {
         // Legacy headers are missing this information
@@ -290,7 +290,7 @@ PyObject *read_vdif(PyObject *self, PyObject *args, PyObject *kwds) {
         goto fail;
     }
     memcpy(rawData, PyBytes_AS_STRING(buffer), sizeof(uint8_t)*dataLength);
-    Py_XDECREF(buffer);
+    Py_CLEAR(buffer);
     
     // Parse it out
     if( bitsPerSample == 8 ) {
@@ -328,10 +328,10 @@ PyObject *read_vdif(PyObject *self, PyObject *args, PyObject *kwds) {
             goto fail;
         }
         
-        float *a;
+        T *a;
         std::complex<float> *b;
         
-        a = (float *) PyArray_DATA(data);
+        a = (T *) PyArray_DATA(data);
         b = (std::complex<float> *) PyArray_DATA(tempArrayComplex);
         for(i=0; i<nSamples; i+=2) {
             *(b+i/2) = std::complex<float>(*(a+i+0), *(a+i+1));
@@ -356,7 +356,7 @@ PyObject *read_vdif(PyObject *self, PyObject *args, PyObject *kwds) {
         padims.len = 2;
         
         tempArrayMulti = (PyArrayObject*) PyArray_Newshape(data, &padims, NPY_CORDER);
-        Py_XDECREF(data);
+        Py_CLEAR(data);
         if( tempArrayMulti == NULL ) {
             PyErr_Format(PyExc_MemoryError, "Cannot create output array");
             goto fail;
-- 
2.43.0


From aeb1184d35db70516b24d067a73efb0539338270 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:29:35 +0000
Subject: [PATCH 009/185] fix: refuse DR spectrometer frames with unknown data
 products

Such frames were unpacked from beyond the end of the data buffer, and the error
paths released the read buffer twice.
---
 lsl/reader/drspec.cpp | 25 +++++++++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/lsl/reader/drspec.cpp b/lsl/reader/drspec.cpp
index 6aa65d7..12b2e05 100644
--- a/lsl/reader/drspec.cpp
+++ b/lsl/reader/drspec.cpp
@@ -274,7 +274,7 @@ PyObject *read_drspec(PyObject *self, PyObject *args) {
         goto fail;
     }
     memcpy(&header, PyBytes_AS_STRING(buffer), sizeof(header));
-    Py_XDECREF(buffer);
+    Py_CLEAR(buffer);
     
     // Check the header's magic numbers
     if( header.MAGIC1 != 0xC0DEC0DE || header.MAGIC2 != 0xED0CED0C) {
@@ -283,6 +283,27 @@ PyObject *read_drspec(PyObject *self, PyObject *args) {
         goto fail;
     }
     
+    // Make sure that the data format is one that we know how to unpack
+    switch( header.stokes_format ) {
+        case LINEAR_XX:
+        case LINEAR_XY_RE:
+        case LINEAR_XY_IM:
+        case LINEAR_YY:
+        case LINEAR_XX | LINEAR_YY:
+        case LINEAR_XY_RE | LINEAR_XY_IM:
+        case LINEAR_XX | LINEAR_XY_RE | LINEAR_XY_IM | LINEAR_YY:
+        case STOKES_I:
+        case STOKES_Q:
+        case STOKES_U:
+        case STOKES_V:
+        case STOKES_I | STOKES_V:
+        case STOKES_I | STOKES_Q | STOKES_U | STOKES_V:
+            break;
+        default:
+            PyErr_Format(PyExc_RuntimeError, "Cannot parse data with a format of 0x%02x", header.stokes_format);
+            goto fail;
+    }
+    
     // Get the data format
     nSets = pol_count(header.stokes_format)*2;
     
@@ -369,7 +390,7 @@ PyObject *read_drspec(PyObject *self, PyObject *args) {
         goto fail;
     }
     memcpy(data, PyBytes_AS_STRING(buffer), nBytes);
-    Py_XDECREF(buffer);
+    Py_CLEAR(buffer);
     
     Py_BEGIN_ALLOW_THREADS
     
-- 
2.43.0


From b381c0ca769524fef68e3ecf2585bdf494545df2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:32:29 +0000
Subject: [PATCH 010/185] fix: decode the COR first channel and gain as
 unsigned

---
 lsl/reader/cor.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lsl/reader/cor.cpp b/lsl/reader/cor.cpp
index 1b382e5..eec962f 100644
--- a/lsl/reader/cor.cpp
+++ b/lsl/reader/cor.cpp
@@ -24,8 +24,8 @@ typedef struct __attribute__((packed)) {
         uint32_t frame_count_word;
     };
     uint32_t second_count;
-    int16_t  first_chan;
-    int16_t  gain;
+    uint16_t first_chan;
+    uint16_t gain;
 } CORHeader;
 
 
-- 
2.43.0


From decb31e4d8bd2ed8477a80fc76fc1564060a5d17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:34:26 +0000
Subject: [PATCH 011/185] fix: report read errors of the file handle as IOError

PyObject_HasAttrString() does not work while an exception is set, every failed
read was reported as the object not having a read() method.
---
 lsl/reader/cor.cpp    | 1 +
 lsl/reader/drspec.cpp | 2 ++
 lsl/reader/drx.cpp    | 1 +
 lsl/reader/drx8.cpp   | 1 +
 lsl/reader/tbx.cpp    | 1 +
 lsl/reader/vdif.cpp   | 3 +++
 6 files changed, 9 insertions(+)

diff --git a/lsl/reader/cor.cpp b/lsl/reader/cor.cpp
index eec962f..1694dbb 100644
--- a/lsl/reader/cor.cpp
+++ b/lsl/reader/cor.cpp
@@ -78,6 +78,7 @@ PyObject *read_cor(PyObject *self, PyObject *args) {
     }
     buffer = PyObject_CallMethodObjArgs(ph, cor_method, cor_size, NULL);
     if( buffer == NULL ) {
+        PyErr_Clear();
         if( PyObject_HasAttrString(ph, "read") ) {
             PyErr_Format(PyExc_IOError, "An error occured while reading from the file");
         } else {
diff --git a/lsl/reader/drspec.cpp b/lsl/reader/drspec.cpp
index 12b2e05..335f536 100644
--- a/lsl/reader/drspec.cpp
+++ b/lsl/reader/drspec.cpp
@@ -263,6 +263,7 @@ PyObject *read_drspec(PyObject *self, PyObject *args) {
     }
     buffer = PyObject_CallMethodObjArgs(ph, drspec_method, drspec_size_hdr, NULL);
     if( buffer == NULL ) {
+        PyErr_Clear();
         if( PyObject_HasAttrString(ph, "read") ) {
             PyErr_Format(PyExc_IOError, "An error occured while reading from the file");
         } else {
@@ -377,6 +378,7 @@ PyObject *read_drspec(PyObject *self, PyObject *args) {
     }
     buffer = PyObject_CallMethodObjArgs(ph, drspec_method, drspec_size_dat, NULL);
     if( buffer == NULL ) {
+        PyErr_Clear();
         if( PyObject_HasAttrString(ph, "read") ) {
             PyErr_Format(PyExc_IOError, "An error occured while reading from the file");
         } else {
diff --git a/lsl/reader/drx.cpp b/lsl/reader/drx.cpp
index 7b3cd4c..9038b6a 100644
--- a/lsl/reader/drx.cpp
+++ b/lsl/reader/drx.cpp
@@ -84,6 +84,7 @@ PyObject *read_drx(PyObject *self, PyObject *args) {
     }
     buffer = PyObject_CallMethodObjArgs(ph, drx_method, drx_size, NULL);
     if( buffer == NULL ) {
+        PyErr_Clear();
         if( PyObject_HasAttrString(ph, "read") ) {
             PyErr_Format(PyExc_IOError, "An error occured while reading from the file");
         } else {
diff --git a/lsl/reader/drx8.cpp b/lsl/reader/drx8.cpp
index cc1d42a..7de19ad 100644
--- a/lsl/reader/drx8.cpp
+++ b/lsl/reader/drx8.cpp
@@ -84,6 +84,7 @@ PyObject *read_drx8(PyObject *self, PyObject *args) {
     }
     buffer = PyObject_CallMethodObjArgs(ph, drx8_method, drx8_size, NULL);
     if( buffer == NULL ) {
+        PyErr_Clear();
         if( PyObject_HasAttrString(ph, "read") ) {
             PyErr_Format(PyExc_IOError, "An error occured while reading from the file");
         } else {
diff --git a/lsl/reader/tbx.cpp b/lsl/reader/tbx.cpp
index 3010c9b..db83af0 100644
--- a/lsl/reader/tbx.cpp
+++ b/lsl/reader/tbx.cpp
@@ -72,6 +72,7 @@ PyObject *read_tbx_impl(PyObject *self, PyObject *args) {
     }
     buffer = PyObject_CallMethodObjArgs(ph, tbx_method, tbx_size, NULL);
     if( buffer == NULL ) {
+        PyErr_Clear();
         if( PyObject_HasAttrString(ph, "read") ) {
             PyErr_Format(PyExc_IOError, "An error occured while reading from the file");
         } else {
diff --git a/lsl/reader/vdif.cpp b/lsl/reader/vdif.cpp
index 32b42f3..2b5ace9 100644
--- a/lsl/reader/vdif.cpp
+++ b/lsl/reader/vdif.cpp
@@ -199,6 +199,7 @@ PyObject *read_vdif(PyObject *self, PyObject *args, PyObject *kwds) {
     }
     buffer = PyObject_CallMethodObjArgs(ph, vdif_method, vdif_size_hdr, NULL);
     if( buffer == NULL ) {
+        PyErr_Clear();
         if( PyObject_HasAttrString(ph, "read") ) {
             PyErr_Format(PyExc_IOError, "An error occured while reading from the file");
         } else {
@@ -238,6 +239,7 @@ PyObject *read_vdif(PyObject *self, PyObject *args, PyObject *kwds) {
         }
         buffer = PyObject_CallMethodObjArgs(ph, vdif_method, vdif_size_ext, NULL);
         if( buffer == NULL ) {
+            PyErr_Clear();
             if( PyObject_HasAttrString(ph, "read") ) {
                 PyErr_Format(PyExc_IOError, "An error occured while reading from the file");
             } else {
@@ -277,6 +279,7 @@ PyObject *read_vdif(PyObject *self, PyObject *args, PyObject *kwds) {
     }
     buffer = PyObject_CallMethodObjArgs(ph, vdif_method, vdif_size_dat, NULL);
     if( buffer == NULL ) {
+        PyErr_Clear();
         if( PyObject_HasAttrString(ph, "read") ) {
             PyErr_Format(PyExc_IOError, "An error occured while reading from the file");
         } else {
-- 
2.43.0


From 40a0ba0cecb45564021e4168ac432b7631df8875 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:34:51 +0000
Subject: [PATCH 012/185] fix: do not follow the mode of a TBX frame with a bad
 sync word

---
 lsl/reader/tbx.cpp | 30 +++++++++++++++---------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/lsl/reader/tbx.cpp b/lsl/reader/tbx.cpp
index db83af0..9bd17fb 100644
--- a/lsl/reader/tbx.cpp
+++ b/lsl/reader/tbx.cpp
@@ -88,14 +88,22 @@ PyObject *read_tbx_impl(PyObject *self, PyObject *args) {
     nstand = __bswap_16(cFrame.header.nstand);
     nchan = __bswap_16(cFrame.header.nchan);
     
+    // Validate
+    if( nread < (int) sizeof(TBXHeader) ) {
+        PyErr_Format(EOFError, "End of file encountered during filehandle read");
+        return NULL;
+    }
+    if( !validSync5C(cFrame.header.syncWord) ) {
+        temp = PyObject_CallMethod(ph, "seek", "ii", -nread, 1);
+        Py_XDECREF(temp);
+        PyErr_Format(SyncError, "Mark 5C sync word differs from expected");
+        return NULL;
+    }
+    
     // If we have come up short check if there is still a complete, smaller frame
-    if( nread != frameSize ) {
-        if( nread < (int) sizeof(TBXHeader) \
-            || !validSync5C(cFrame.header.syncWord) \
-            || nread < (int) sizeof(TBXHeader)+8+nchan*nstand*2*1 ) {
-            PyErr_Format(EOFError, "End of file encountered during filehandle read");
-            return NULL;
-        }
+    if( nread != frameSize && nread < (int) sizeof(TBXHeader)+8+nchan*nstand*2*1 ) {
+        PyErr_Format(EOFError, "End of file encountered during filehandle read");
+        return NULL;
     }
     
     // If nstand is not what we expect, update the cache and retry with correct size
@@ -191,14 +199,6 @@ PyObject *read_tbx_impl(PyObject *self, PyObject *args) {
     
     Py_END_ALLOW_THREADS
     
-    // Validate
-    if( !validSync5C(cFrame.header.syncWord) ) {
-        buffer = PyObject_CallMethod(ph, "seek", "ii", -frameSize, 1);
-        PyErr_Format(SyncError, "Mark 5C sync word differs from expected");
-        Py_XDECREF(data);
-        return NULL;
-    }
-    
     // Save the data to the frame object
     // 1.  Header
     fHeader = PyObject_GetAttrString(frame, "header");
-- 
2.43.0


From 8e8045c4dd49ed2709e3eaf245d6dc7ddeaab75d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:35:32 +0000
Subject: [PATCH 013/185] fix: make SplitFileWrapper behave like one file

read() could not span more than two parts, seek() relative to the end went the
wrong way, and the caller's list of names was sorted in place.
---
 lsl/reader/utils.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/lsl/reader/utils.py b/lsl/reader/utils.py
index da932cb..8180001 100644
--- a/lsl/reader/utils.py
+++ b/lsl/reader/utils.py
@@ -34,7 +34,7 @@ class SplitFileWrapper(object):
     """
     
     def __init__(self, filenames, sort=True, buffering=-1):
-        self._filenames = filenames
+        self._filenames = list(filenames)
         if sort:
             self._filenames.sort()
             
@@ -76,13 +76,16 @@ class SplitFileWrapper(object):
             del self._fh
             del self._pos
             
-    def read(self, size):
+    def read(self, size=-1):
         if self.closed:
             raise ValueError("I/O operation on a closed file")
             
+        if size is None or size < 0:
+            size = max([self._total_size - self._pos, 0])
+            
         data = self._fh.read(size)
         self._pos += len(data)
-        if len(data) < size and self._idx < self._nfiles-1:
+        while len(data) < size and self._idx < self._nfiles-1:
             self._open_part()
             new_data = self._fh.read(size-len(data))
             self._pos += len(new_data)
@@ -104,6 +107,9 @@ class SplitFileWrapper(object):
             raise ValueError("I/O operation on a closed file")
             
         if whence == 0:
+            if pos < 0:
+                raise OSError(f"Invalid seek position: {pos}")
+                
             idx = bisect(self._offsets, pos) - 1
             self._open_part(idx)
             offset = pos - self._pos
@@ -115,5 +121,5 @@ class SplitFileWrapper(object):
             self.seek(offset, whence=0)
             
         else:
-            offset = self._total_size - pos
+            offset = self._total_size + pos
             self.seek(offset, whence=0)
-- 
2.43.0


From b8f957d2165281eb965bca1ab5e6120a1de85afc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:37:32 +0000
Subject: [PATCH 014/185] fix: count whole leap seconds

leap_secs() returned fractions of a leap second on days that end with one, and
VDIF times were off by half a second for epochs that start with a leap second.
---
 lsl/astro.py       | 3 ++-
 lsl/reader/vdif.py | 6 +++---
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/lsl/astro.py b/lsl/astro.py
index 20fade9..d579631 100644
--- a/lsl/astro.py
+++ b/lsl/astro.py
@@ -2955,7 +2955,8 @@ def leap_secs(utcJD):
     if utcJD < FIRST_LEAP_UTC:
         raise ValueError(f"utcJD must be greater than {FIRST_LEAP_UTC}")
         
-    t = AstroTime(utcJD, format='jd', scale='utc')
+    # Leap seconds are added at the end of a UTC day
+    t = AstroTime(math.floor(utcJD - MJD_OFFSET), format='mjd', scale='utc')
     diff_unix = t.unix
     diff_jd = (t - _UNIX_EPOCH_AT).sec
     return round(diff_jd - diff_unix, 1) + 8   # +8 for initial 10 s offset between TAI and UTC
diff --git a/lsl/reader/vdif.py b/lsl/reader/vdif.py
index cef3d73..d4001ed 100644
--- a/lsl/reader/vdif.py
+++ b/lsl/reader/vdif.py
@@ -32,7 +32,7 @@ from functools import lru_cache
 
 from astropy.time import Time as AstroTime, TimeDelta as AstroDelta
 
-from lsl.astro import leap_secs
+from lsl.astro import leap_secs, MJD_OFFSET
 from lsl.common.mcs import datetime_to_mjdmpm
 from lsl.reader.base import *
 from lsl.reader._gofast import read_vdif, read_vdif_i8
@@ -131,9 +131,9 @@ class FrameHeader(FrameHeaderBase):
         # and convert it to a MJD
         frameDT = AstroTime(f"{2000+self.ref_epoch//2}-{(self.ref_epoch % 2)*6+1}-1 00:00:00",
                             format='iso', scale='utc')
-        frameJD = int(frameDT.jd)
+        frameJD = int(frameDT.mjd) + MJD_OFFSET
         frameDT += AstroDelta(self.seconds_from_epoch, format='sec')
-        frameDT -= AstroDelta(_ls_tracker(frameJD, int(frameDT.jd)), format='sec')
+        frameDT -= AstroDelta(_ls_tracker(frameJD, int(frameDT.mjd) + MJD_OFFSET), format='sec')
         
         if self.sample_rate == 0.0:
             # Try to get the sub-second time by parsing the extended user data
-- 
2.43.0


From 5d754106d17e52539b2bc1f02880e08b3fc15cae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:37:32 +0000
Subject: [PATCH 015/185] fix: normalize the pulsar MJD of a frame timestamp

Times in the first second of a day were reported as second 86400 of the day
before.
---
 lsl/reader/base.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/lsl/reader/base.py b/lsl/reader/base.py
index 0457399..5e5ce15 100644
--- a/lsl/reader/base.py
+++ b/lsl/reader/base.py
@@ -550,10 +550,13 @@ class FrameTimestamp(object):
         day_sec1 = mjd_frac1 * 86400
         day_sec2 = mjd_frac2 * 86400
         day_sec = int(day_sec1) + int(day_sec2)
-        if day_sec > 86400:
+        sec_frac = (day_sec1 - int(day_sec1)) + (day_sec2 - int(day_sec2))
+        if sec_frac >= 1.0:
+            day_sec += 1
+            sec_frac -= 1.0
+        if day_sec >= 86400:
             mjd += 1
             day_sec -= 86400
-        sec_frac = (day_sec1 - int(day_sec1)) + (day_sec2 - int(day_sec2))
         return mjd, day_sec, sec_frac
         
     @property
-- 
2.43.0


From 4e55f7df2b7b9d21a62ada07839319c1d23365b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:49:37 +0000
Subject: [PATCH 016/185] fix: do not lose buffered data at the end of a file

read() flushed the whole ring buffer at the end of the file and dropped what
did not fit in the request, did not zero-fill gaps there and could fail with an
IndexError when filling a gap.
---
 lsl/reader/ldp.py | 228 ++++++++++------------------------------------
 1 file changed, 46 insertions(+), 182 deletions(-)

diff --git a/lsl/reader/ldp.py b/lsl/reader/ldp.py
index f132c53..2d9bffc 100644
--- a/lsl/reader/ldp.py
+++ b/lsl/reader/ldp.py
@@ -590,10 +590,10 @@ class DRXFile(LDPFileBase):
         eofFound = False
         count = {0:0, 1:0, 2:0, 3:0}
         while True:
-            if eofFound or nFrameSets == frame_count:
+            if nFrameSets == frame_count:
                 break
                 
-            if not self.buffer.overfilled:
+            if not eofFound and not self.buffer.overfilled:
                 cFrames = deque()
                 for i in range(self.description['nbeampol']):
                     try:
@@ -607,8 +607,11 @@ class DRXFile(LDPFileBase):
                         continue
                 self.buffer.append(cFrames)
                 
-            cTimetag = self.buffer.peek()
+            cTimetag = self.buffer.peek(require_filled=(not eofFound))
             if cTimetag is None:
+                # Stop if there is nothing left.
+                if eofFound:
+                    break
                 # Continue adding frames if nothing comes out.
                 continue
             else:
@@ -623,14 +626,11 @@ class DRXFile(LDPFileBase):
                         ## This is kind of black magic down here
                         for m in range(int(missing)):
                             m = self._timetag[aStand] + self._timetagSkip*(m+1)
-                            try:
-                                baseframe = copy.deepcopy(cFrames[0])
-                            except NameError:
-                                baseframe = copy.deepcopy(self.buffer.buffer[cTimetag][0])
+                            baseframe = copy.deepcopy(self.buffer.buffer[cTimetag][0])
                             baseframe.payload.timetag = m
                             baseframe.payload._data[...] = 0
                             self.buffer.append(baseframe)
-            cFrames = self.buffer.get()
+            cFrames = self.buffer.get(self.buffer.peek(require_filled=(not eofFound)))
             
             # If something comes out, add it to the data array
             for cFrame in cFrames:
@@ -659,39 +659,6 @@ class DRXFile(LDPFileBase):
                 self._timetag[aStand] = cTimetag
             nFrameSets += 1
             
-        # If we've hit the end of the file and haven't read in enough frames, 
-        # flush the buffer
-        if eofFound and nFrameSets != frame_count:
-            for cFrames in self.buffer.flush():
-                for cFrame in cFrames:
-                    b,t,p = cFrame.id
-                    aStand = 2*(t-1) + p
-                    cTimetag = cFrame.payload.timetag
-                    if self._timetag[aStand] == 0:
-                        self._timetag[aStand] = cTimetag - self._timetagSkip
-                    if cTimetag != self._timetag[aStand]+self._timetagSkip:
-                        actStep = cTimetag - self._timetag[aStand]
-                        if self.ignore_timetag_errors:
-                            if not warned_timetag:
-                                LSL_LOGGER.warning(f"Invalid timetag skip encountered, expected {self._timetagSkip} on tuning {t}, pol {p}, but found {actStep}")
-                                warned_timetag = True
-                        else:
-                            raise RuntimeError(f"Invalid timetag skip encountered, expected {self._timetagSkip} on tuning {t}, pol {p}, but found {actStep}")
-                            
-                    if setTime is None:
-                        if time_in_samples:
-                            setTime = cFrame.payload.timetag - cFrame.header.time_offset
-                        else:
-                            setTime = cFrame.time
-                            
-                    data_view[aStand, count[aStand]*4096:(count[aStand]+1)*4096] = cFrame.payload.data.view(data_view.dtype)
-                    count[aStand] +=  1
-                    self._timetag[aStand] = cTimetag
-                nFrameSets += 1
-                
-                if nFrameSets == frame_count:
-                    break
-                    
         # Adjust the duration to account for all of the things that could 
         # have gone wrong while reading the data
         duration = nFrameSets * 4096 / self.description['sample_rate']
@@ -1056,10 +1023,10 @@ class DRX8File(LDPFileBase):
         eofFound = False
         count = {0:0, 1:0, 2:0, 3:0}
         while True:
-            if eofFound or nFrameSets == frame_count:
+            if nFrameSets == frame_count:
                 break
                 
-            if not self.buffer.overfilled:
+            if not eofFound and not self.buffer.overfilled:
                 cFrames = deque()
                 for i in range(self.description['nbeampol']):
                     try:
@@ -1073,8 +1040,11 @@ class DRX8File(LDPFileBase):
                         continue
                 self.buffer.append(cFrames)
                 
-            cTimetag = self.buffer.peek()
+            cTimetag = self.buffer.peek(require_filled=(not eofFound))
             if cTimetag is None:
+                # Stop if there is nothing left.
+                if eofFound:
+                    break
                 # Continue adding frames if nothing comes out.
                 continue
             else:
@@ -1089,14 +1059,11 @@ class DRX8File(LDPFileBase):
                         ## This is kind of black magic down here
                         for m in range(int(missing)):
                             m = self._timetag[aStand] + self._timetagSkip*(m+1)
-                            try:
-                                baseframe = copy.deepcopy(cFrames[0])
-                            except NameError:
-                                baseframe = copy.deepcopy(self.buffer.buffer[cTimetag][0])
+                            baseframe = copy.deepcopy(self.buffer.buffer[cTimetag][0])
                             baseframe.payload.timetag = m
                             baseframe.payload._data[...] = 0
                             self.buffer.append(baseframe)
-            cFrames = self.buffer.get()
+            cFrames = self.buffer.get(self.buffer.peek(require_filled=(not eofFound)))
             
             # If something comes out, add it to the data array
             for cFrame in cFrames:
@@ -1125,39 +1092,6 @@ class DRX8File(LDPFileBase):
                 self._timetag[aStand] = cTimetag
             nFrameSets += 1
             
-        # If we've hit the end of the file and haven't read in enough frames, 
-        # flush the buffer
-        if eofFound and nFrameSets != frame_count:
-            for cFrames in self.buffer.flush():
-                for cFrame in cFrames:
-                    b,t,p = cFrame.id
-                    aStand = 2*(t-1) + p
-                    cTimetag = cFrame.payload.timetag
-                    if self._timetag[aStand] == 0:
-                        self._timetag[aStand] = cTimetag - self._timetagSkip
-                    if cTimetag != self._timetag[aStand]+self._timetagSkip:
-                        actStep = cTimetag - self._timetag[aStand]
-                        if self.ignore_timetag_errors:
-                            if not warned_timetag:
-                                LSL_LOGGER.warning(f"Invalid timetag skip encountered, expected {self._timetagSkip} on tuning {t}, pol {p}, but found {actStep}")
-                                warned_timetag = True
-                        else:
-                            raise RuntimeError(f"Invalid timetag skip encountered, expected {self._timetagSkip} on tuning {t}, pol {p}, but found {actStep}")
-                            
-                    if setTime is None:
-                        if time_in_samples:
-                            setTime = cFrame.payload.timetag - cFrame.header.time_offset
-                        else:
-                            setTime = cFrame.time
-                            
-                    data_view[aStand, count[aStand]*4096:(count[aStand]+1)*4096] = cFrame.payload.data.view(data_view.dtype)
-                    count[aStand] +=  1
-                    self._timetag[aStand] = cTimetag
-                nFrameSets += 1
-                
-                if nFrameSets == frame_count:
-                    break
-                    
         # Adjust the duration to account for all of the things that could 
         # have gone wrong while reading the data
         duration = nFrameSets * 4096 / self.description['sample_rate']
@@ -1713,10 +1647,10 @@ class TBXFile(LDPFileBase):
 
         nSkip = 0
         while True:
-            if eofFound or nFrameSets == frame_count:
+            if nFrameSets == frame_count:
                 break
                 
-            if not self.buffer.overfilled:
+            if not eofFound and not self.buffer.overfilled:
                 cFrames = deque()
                 for i in range(framesPerObs):
                     try:
@@ -1742,8 +1676,11 @@ class TBXFile(LDPFileBase):
                         continue
                 self.buffer.append(cFrames)
                 
-            cTimetag = self.buffer.peek()
+            cTimetag = self.buffer.peek(require_filled=(not eofFound))
             if cTimetag is None:
+                # Stop if there is nothing left.
+                if eofFound:
+                    break
                 # Continue adding frames if nothing comes out.
                 continue
             else:
@@ -1758,14 +1695,11 @@ class TBXFile(LDPFileBase):
                         ## This is kind of black magic down here
                         for m in range(int(missing)):
                             m = self._timetag + 8192*(m+1)
-                            try:
-                                baseframe = copy.deepcopy(cFrames[0])
-                            except NameError:
-                                baseframe = copy.deepcopy(self.buffer.buffer[cTimetag][0])
+                            baseframe = copy.deepcopy(self.buffer.buffer[cTimetag][0])
                             baseframe.payload.timetag = m
                             baseframe.payload._data[...] = 0
                             self.buffer.append(baseframe)
-            cFrames = self.buffer.get()
+            cFrames = self.buffer.get(self.buffer.peek(require_filled=(not eofFound)))
             
             # Continue adding frames if nothing comes out.
             if cFrames is None:
@@ -1803,44 +1737,6 @@ class TBXFile(LDPFileBase):
                 count[aStand] += 1
             nFrameSets += 1
             
-        # If we've hit the end of the file and haven't read in enough frames, 
-        # flush the buffer
-        if eofFound and nFrameSets != frame_count:
-            for cFrames in self.buffer.flush():
-                cTimetag = cFrames[0].payload.timetag
-                if self._timetag == 0:
-                    self._timetag = cTimetag - timetagSkip
-                if cTimetag != self._timetag+timetagSkip:
-                    actStep = cTimetag - self._timetag
-                    if self.ignore_timetag_errors:
-                        if not warned_timetag:
-                            LSL_LOGGER.warning(f"Invalid timetag skip encountered, expected {timetagSkip}, but found {actStep}")
-                            warned_timetag = True
-                    else:
-                        raise RuntimeError(f"Invalid timetag skip encountered, expected {timetagSkip}, but found {actStep}")
-                self._timetag = cFrames[0].payload.timetag
-                
-                for cFrame in cFrames:
-                    first_chan = cFrame.header.first_chan
-                    
-                    if setTime is None:
-                        if time_in_samples:
-                            setTime = cFrame.payload.timetag
-                        else:
-                            setTime = cFrame.time
-                        
-                    subData = cFrame.payload.data
-                    subData = subData.reshape(self.description['frame_channel_count'],-1)
-                    subData = subData.T
-                    
-                    aStand = self.mapper.index(first_chan)
-                    data_view[:,aStand*self.description['frame_channel_count']:(aStand+1)*self.description['frame_channel_count'],count[aStand]] = subData.view(data_view.dtype)
-                    count[aStand] += 1
-                nFrameSets += 1
-                
-                if nFrameSets == frame_count:
-                    break
-                    
         # Sanity check at the end to see if we actually read anything.  
         if nFrameSets == 0 and duration > 0:
             raise errors.EOFError()
@@ -2073,29 +1969,33 @@ class CORFile(LDPFileBase):
         count = [0 for i in range(framesPerObs)]
         data = np.zeros((self.description['nbaseline'], self.description['nchan'], 2, 2, frame_count), dtype=np.complex64)
         while True:
-            if eofFound or nFrameSets == frame_count:
+            if nFrameSets == frame_count:
                 break
                 
-            cFrames = deque()
-            for i in range(framesPerObs):
-                try:
-                    cFrame = cor.read_frame(self.fh)
-                    if not cFrame.is_cor:
+            if not eofFound:
+                cFrames = deque()
+                for i in range(framesPerObs):
+                    try:
+                        cFrame = cor.read_frame(self.fh)
+                        if not cFrame.is_cor:
+                            continue
+                        cFrames.append( cFrame )
+                    except errors.EOFError:
+                        eofFound = True
+                        self.buffer.append(cFrames)
+                        cFrames = []
+                        break
+                    except errors.SyncError:
                         continue
-                    cFrames.append( cFrame )
-                except errors.EOFError:
-                    eofFound = True
-                    self.buffer.append(cFrames)
-                    cFrames = []
-                    break
-                except errors.SyncError:
-                    continue
-                    
-            self.buffer.append(cFrames)
-            cFrames = self.buffer.get()
+                self.buffer.append(cFrames)
+                
+            cFrames = self.buffer.get(self.buffer.peek(require_filled=(not eofFound)))
             
-            # Continue adding frames if nothing comes out.
             if cFrames is None:
+                # Stop if there is nothing left.
+                if eofFound:
+                    break
+                # Continue adding frames if nothing comes out.
                 continue
                 
             # If something comes out, add it to the data array
@@ -2128,42 +2028,6 @@ class CORFile(LDPFileBase):
                 count[aStand] += 1
             nFrameSets += 1
             
-        # If we've hit the end of the file and haven't read in enough frames, 
-        # flush the buffer
-        if eofFound and nFrameSets != frame_count:
-            for cFrames in self.buffer.flush():
-                cTimetag = cFrames[0].payload.timetag
-                if self._timetag == 0:
-                    self._timetag = cTimetag - timetagSkip
-                if cTimetag != self._timetag+timetagSkip:
-                    actStep = cTimetag - self._timetag
-                    if self.ignore_timetag_errors:
-                        if not warned_timetag:
-                            LSL_LOGGER.warning(f"Invalid timetag skip encountered, expected {timetagSkip}, but found {actStep}")
-                            warned_timetag = True
-                    else:
-                        raise RuntimeError(f"Invalid timetag skip encountered, expected {timetagSkip}, but found {actStep}")
-                self._timetag = cFrames[0].payload.timetag
-                
-                for cFrame in cFrames:
-                    first_chan = cFrame.header.first_chan
-                    
-                    if setTime is None:
-                        if time_in_samples:
-                            setTime = cFrame.payload.timetag
-                        else:
-                            setTime = cFrame.time
-                            
-                    aBase = self.bmapperd[cFrame.id]
-                    aChan = self.cmapperd[first_chan]
-                    aStand = aBase*len(self.cmapper) + aChan
-                    data[aBase,aChan*self.description['frame_channel_count']:(aChan+1)*self.description['frame_channel_count'],:,:,count[aStand]] = cFrame.payload.data
-                    count[aStand] += 1
-                nFrameSets += 1
-                
-                if nFrameSets == frame_count:
-                    break
-                    
         # Sanity check at the end to see if we actually read anything.  
         # This is needed because of how COR and DRX interact where COR
         # files can be padded at the end with DRX data
-- 
2.43.0


From 43903232e21605446f10da2677127d4deea5ef32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:49:37 +0000
Subject: [PATCH 017/185] fix: zero-fill gaps in beam files without tuning 1,
 polarization X

---
 lsl/reader/ldp.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/lsl/reader/ldp.py b/lsl/reader/ldp.py
index 2d9bffc..1061914 100644
--- a/lsl/reader/ldp.py
+++ b/lsl/reader/ldp.py
@@ -616,16 +616,16 @@ class DRXFile(LDPFileBase):
                 continue
             else:
                 # Otherwise, make sure we are on track
-                aStand = 0
-                if self._timetag[aStand] == 0:
+                lastTimetag = max(self._timetag.values())
+                if lastTimetag == 0:
                     pass
-                elif cTimetag != self._timetag[aStand]+self._timetagSkip:
-                    missing = (cTimetag - self._timetag[aStand] - self._timetagSkip) / float(self._timetagSkip)
+                elif cTimetag != lastTimetag+self._timetagSkip:
+                    missing = (cTimetag - lastTimetag - self._timetagSkip) / float(self._timetagSkip)
                     if int(missing) == missing and missing < LDP_CONFIG.get('drx_autofill_size'):
                         LSL_LOGGER.debug(f"Zero-filling {int(missing)} missing frame(s)")
                         ## This is kind of black magic down here
                         for m in range(int(missing)):
-                            m = self._timetag[aStand] + self._timetagSkip*(m+1)
+                            m = lastTimetag + self._timetagSkip*(m+1)
                             baseframe = copy.deepcopy(self.buffer.buffer[cTimetag][0])
                             baseframe.payload.timetag = m
                             baseframe.payload._data[...] = 0
@@ -1049,16 +1049,16 @@ class DRX8File(LDPFileBase):
                 continue
             else:
                 # Otherwise, make sure we are on track
-                aStand = 0
-                if self._timetag[aStand] == 0:
+                lastTimetag = max(self._timetag.values())
+                if lastTimetag == 0:
                     pass
-                elif cTimetag != self._timetag[aStand]+self._timetagSkip:
-                    missing = (cTimetag - self._timetag[aStand] - self._timetagSkip) / float(self._timetagSkip)
+                elif cTimetag != lastTimetag+self._timetagSkip:
+                    missing = (cTimetag - lastTimetag - self._timetagSkip) / float(self._timetagSkip)
                     if int(missing) == missing and missing < LDP_CONFIG.get('drx_autofill_size'):
                         LSL_LOGGER.debug(f"Zero-filling {int(missing)} missing frame(s)")
                         ## This is kind of black magic down here
                         for m in range(int(missing)):
-                            m = self._timetag[aStand] + self._timetagSkip*(m+1)
+                            m = lastTimetag + self._timetagSkip*(m+1)
                             baseframe = copy.deepcopy(self.buffer.buffer[cTimetag][0])
                             baseframe.payload.timetag = m
                             baseframe.payload._data[...] = 0
-- 
2.43.0


From 7a1986f34e980281697f105907ad0be3e95e5085 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:49:37 +0000
Subject: [PATCH 018/185] fix: report the end of a file that ends with a
 partial frame

DRXFile, DRX8File and DRSpecFile.read() returned zero seconds of data forever,
which made read_sequence() endless.
---
 lsl/reader/ldp.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/lsl/reader/ldp.py b/lsl/reader/ldp.py
index 1061914..0cc66b3 100644
--- a/lsl/reader/ldp.py
+++ b/lsl/reader/ldp.py
@@ -659,6 +659,10 @@ class DRXFile(LDPFileBase):
                 self._timetag[aStand] = cTimetag
             nFrameSets += 1
             
+        # Sanity check at the end to see if we actually read anything.
+        if nFrameSets == 0:
+            raise errors.EOFError()
+            
         # Adjust the duration to account for all of the things that could 
         # have gone wrong while reading the data
         duration = nFrameSets * 4096 / self.description['sample_rate']
@@ -1092,6 +1096,10 @@ class DRX8File(LDPFileBase):
                 self._timetag[aStand] = cTimetag
             nFrameSets += 1
             
+        # Sanity check at the end to see if we actually read anything.
+        if nFrameSets == 0:
+            raise errors.EOFError()
+            
         # Adjust the duration to account for all of the things that could 
         # have gone wrong while reading the data
         duration = nFrameSets * 4096 / self.description['sample_rate']
@@ -1380,6 +1388,10 @@ class DRSpecFile(LDPFileBase):
             self._timetag = cTimetag
             nFrameSets += 1
             
+        # Sanity check at the end to see if we actually read anything.
+        if nFrameSets == 0:
+            raise errors.EOFError()
+            
         # Adjust the duration to account for all of the things that could 
         # have gone wrong while reading the data
         duration = nFrameSets * self.description['tint']
-- 
2.43.0


From f4096064696de09f57c58ba5eaf41a17bae0b640 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:49:56 +0000
Subject: [PATCH 019/185] fix: read DR spectrometer files past a damaged frame

A frame with a bad sync word stopped DRSpecFile.read() for good, and a file of one
frame or with a damaged second frame could not be opened.
---
 lsl/reader/ldp.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/lsl/reader/ldp.py b/lsl/reader/ldp.py
index 0cc66b3..eb02bf4 100644
--- a/lsl/reader/ldp.py
+++ b/lsl/reader/ldp.py
@@ -1192,11 +1192,12 @@ class DRSpecFile(LDPFileBase):
         # Align on the start of a Mark5C packet...
         while True:
             try:
+                mark = self.fh.tell()
                 junkFrame = drspec.read_frame(self.fh)
                 break
             except errors.SyncError:
                 self.fh.seek(1, 1)
-        self.fh.seek(-drspec.get_frame_size(self.fh), 1)
+        self.fh.seek(mark, 0)
         
         return True
         
@@ -1356,13 +1357,15 @@ class DRSpecFile(LDPFileBase):
         nFrameSets = 0
         warned_timetag = False
         setTime = None
-        for i in range(frame_count):
+        while nFrameSets < frame_count:
             # Read in the next frame and anticipate any problems that could occur
             try:
                 cFrame = drspec.read_frame(self.fh)
             except errors.EOFError:
                 break
             except errors.SyncError:
+                # Move on to the next valid frame
+                self.fh.seek(1, 1)
                 continue
                 
             cTimetag = cFrame.time
-- 
2.43.0


From cfcf9dde1d05152bc6f0545fb0110e7a6a7bbd4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:52:15 +0000
Subject: [PATCH 020/185] fix: offset into TBX and COR files from where the
 last read stopped

The offset was taken from the wrong place in the file when data were still
buffered and failed with an AttributeError otherwise.
---
 lsl/reader/ldp.py | 58 ++++++++++++++++++++---------------------------
 1 file changed, 25 insertions(+), 33 deletions(-)

diff --git a/lsl/reader/ldp.py b/lsl/reader/ldp.py
index eb02bf4..e7d71ce 100644
--- a/lsl/reader/ldp.py
+++ b/lsl/reader/ldp.py
@@ -1540,24 +1540,19 @@ class TBXFile(LDPFileBase):
         """
         
         frame_size = self.description['frame_size']
-        
-        # Find out where we really are taking into account the buffering
-        buffer_offset = 0
-        if getattr(self, "_timetag", None) is not None:
-            curr = self.buffer.peek(require_filled=False)
-            if curr is None:
-                frame = tbx.read_frame(self.fh)
-                self.fh.seek(-frame_size, 1)
-                curr = frame.payload.time_tag
-            buffer_offset = curr - self._timetag
-            buffer_offset = buffer_offset / fS
-            
-        offset = offset - buffer_offset
         framesPerObs = self.description['nchan'] // self.description['frame_channel_count']
-        frameOffset = int(offset * self.description['sample_rate'] * framesPerObs)
-        frameOffset = int(1.0 * frameOffset / framesPerObs) * framesPerObs
-        self.fh.seek(frameOffset*frame_size, 1)
         
+        # Find out where we really are taking into account the buffering
+        t0 = self.buffer.peek(require_filled=False)
+        if t0 is None:
+            with FilePositionSaver(self.fh):
+                t0 = tbx.read_frame(self.fh).payload.timetag
+                
+        obsOffset = int(round(offset * self.description['sample_rate'])) - len(self.buffer.buffer)
+        self.fh.seek(obsOffset*framesPerObs*frame_size, 1)
+        with FilePositionSaver(self.fh):
+            t1 = tbx.read_frame(self.fh).payload.timetag
+            
         # Update the file metadata
         self._describe_file()
         
@@ -1568,7 +1563,7 @@ class TBXFile(LDPFileBase):
         # Reset the timetag checker
         self._timetag = None
         
-        return 1.0 * frameOffset / framesPerObs / self.description['sample_rate']
+        return (t1 - t0) / fS
         
     def read_frame(self, return_ci8=False):
         """
@@ -1889,23 +1884,20 @@ class CORFile(LDPFileBase):
             than to the start of the file
         """
         
-        # Find out where we really are taking into account the buffering
-        buffer_offset = 0
-        if getattr(self, "_timetag", None) is not None:
-            curr = self.buffer.peek(require_filled=False)
-            if curr is None:
-                frame = cor.read_frame(self.fh)
-                self.fh.seek(-cor.FRAME_SIZE, 1)
-                curr = frame.payload.time_tag
-            buffer_offset = curr - self._timetag
-            buffer_offset = buffer_offset / fS
-            
-        offset = offset - buffer_offset
+        frame_size = self.description['frame_size']
         framesPerObs = self.description['nchan'] // self.description['frame_channel_count'] * self.description['nbaseline']
-        frameOffset = int(offset / self.description['tint'] * framesPerObs)
-        frameOffset = int(1.0 * frameOffset / framesPerObs) * framesPerObs
-        self.fh.seek(frameOffset*cor.FRAME_SIZE, 1)
         
+        # Find out where we really are taking into account the buffering
+        t0 = self.buffer.peek(require_filled=False)
+        if t0 is None:
+            with FilePositionSaver(self.fh):
+                t0 = cor.read_frame(self.fh).payload.timetag
+                
+        obsOffset = int(round(offset / self.description['tint'])) - len(self.buffer.buffer)
+        self.fh.seek(obsOffset*framesPerObs*frame_size, 1)
+        with FilePositionSaver(self.fh):
+            t1 = cor.read_frame(self.fh).payload.timetag
+            
         # Update the file metadata
         self._describe_file()
         
@@ -1916,7 +1908,7 @@ class CORFile(LDPFileBase):
         # Reset the timetag checker
         self._timetag = None
         
-        return 1.0 * frameOffset / framesPerObs * self.description['tint']
+        return (t1 - t0) / fS
         
     def read_frame(self):
         """
-- 
2.43.0


From d1b91fdc4455e64438e209e1b85d4ceba7b323ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:52:15 +0000
Subject: [PATCH 021/185] fix: read TBX files to their end

The number of frames left was wrong after an offset, and an incomplete last time
could not be read: read() returned zero seconds of data forever.
---
 lsl/reader/ldp.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lsl/reader/ldp.py b/lsl/reader/ldp.py
index e7d71ce..bb13d8e 100644
--- a/lsl/reader/ldp.py
+++ b/lsl/reader/ldp.py
@@ -1633,8 +1633,8 @@ class TBXFile(LDPFileBase):
             
         # Find out how many frames to read in... but make sure we don't read too much
         framesPerObs = self.description['nchan'] // self.description['frame_channel_count']
-        remaining_count = self.description['nframe'] - self.fh.tell() // self.description['frame_size']
-        max_frame_count = remaining_count // framesPerObs + len(self.buffer.buffer.keys())
+        remaining_count = self.get_remaining_frame_count()
+        max_frame_count = -(-remaining_count // framesPerObs) + len(self.buffer.buffer.keys())
         if duration is None:
             duration = max_frame_count / self.description['sample_rate']
             LSL_LOGGER.debug(f"Requested duration is None, loading {duration:.3f} s of data")
@@ -1748,7 +1748,7 @@ class TBXFile(LDPFileBase):
             nFrameSets += 1
             
         # Sanity check at the end to see if we actually read anything.  
-        if nFrameSets == 0 and duration > 0:
+        if nFrameSets == 0:
             raise errors.EOFError()
             
         # Adjust the duration to account for all of the things that could 
-- 
2.43.0


From 3015db7bfdb1bfee929a11d0e80eaaa0a6bee048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:52:15 +0000
Subject: [PATCH 022/185] fix: fill gaps in TBX files with the time step of the
 file

---
 lsl/reader/ldp.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lsl/reader/ldp.py b/lsl/reader/ldp.py
index bb13d8e..b61b807 100644
--- a/lsl/reader/ldp.py
+++ b/lsl/reader/ldp.py
@@ -1622,7 +1622,7 @@ class TBXFile(LDPFileBase):
                 raise errors.EOFError()
                 
         # Covert the sample rate to an expected timetag skip
-        timetagSkip = int(1.0 / self.description['sample_rate'] * fS)
+        timetagSkip = int(round(fS / self.description['sample_rate']))
         
         # Setup the read_frame version to use
         tbx_rf = tbx.read_frame_ci8 if return_ci8 else tbx.read_frame
@@ -1698,13 +1698,13 @@ class TBXFile(LDPFileBase):
                 aStand = 0
                 if self._timetag == 0:
                     pass
-                elif cTimetag != self._timetag + 8192:
-                    missing = (cTimetag - self._timetag - 8192) / float(8192)
+                elif cTimetag != self._timetag + timetagSkip:
+                    missing = (cTimetag - self._timetag - timetagSkip) / float(timetagSkip)
                     if int(missing) == missing and missing < LDP_CONFIG.get('tbx_autofill_size'):
                         LSL_LOGGER.debug(f"Zero-filling {int(missing)} missing frame(s)")
                         ## This is kind of black magic down here
                         for m in range(int(missing)):
-                            m = self._timetag + 8192*(m+1)
+                            m = self._timetag + timetagSkip*(m+1)
                             baseframe = copy.deepcopy(self.buffer.buffer[cTimetag][0])
                             baseframe.payload.timetag = m
                             baseframe.payload._data[...] = 0
-- 
2.43.0


From d636957acb07ca29a17ef5886f1dbbf3d0606209 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:52:42 +0000
Subject: [PATCH 023/185] fix: read TBX and COR files past a damaged frame

CORFile.read() looped forever at a frame with a bad sync word, TBXFile.read()
lost the rest of the file and TBX files with a damaged frame near their start
could not be opened.
---
 lsl/reader/ldp.py | 12 +++++++++---
 lsl/reader/tbx.py | 28 ++++++++++++++++++++--------
 2 files changed, 29 insertions(+), 11 deletions(-)

diff --git a/lsl/reader/ldp.py b/lsl/reader/ldp.py
index b61b807..df78018 100644
--- a/lsl/reader/ldp.py
+++ b/lsl/reader/ldp.py
@@ -1482,11 +1482,16 @@ class TBXFile(LDPFileBase):
             # of 7840 ticks @ fS vs NDP with 8192 ticks @ fS
             time_tags = []
             mark = self.fh.tell()
-            for i in range(300):
+            nRead = 0
+            while nRead < 300:
                 try:
                     cFrame = tbx.read_frame(self.fh)
+                    nRead += 1
                 except errors.EOFError:
                     break
+                except errors.SyncError:
+                    self.fh.seek(1, 1)
+                    continue
                 if cFrame.payload.timetag not in time_tags:
                     time_tags.append(cFrame.payload.timetag)
             self.fh.seek(mark, 0)
@@ -1677,12 +1682,12 @@ class TBXFile(LDPFileBase):
                         break
                     except errors.SyncError:
                         nSkip += 1
-                        if nSkip > 40000:
+                        if nSkip > 40000*drx.FRAME_SIZE:
                             eofFound = True
                             self.buffer.append(cFrames)
                             cFrames = []
                             break
-                        self.fh.seek(drx.FRAME_SIZE, 1)
+                        self.fh.seek(1, 1)
                         continue
                 self.buffer.append(cFrames)
                 
@@ -1993,6 +1998,7 @@ class CORFile(LDPFileBase):
                         cFrames = []
                         break
                     except errors.SyncError:
+                        self.fh.seek(1, 1)
                         continue
                 self.buffer.append(cFrames)
                 
diff --git a/lsl/reader/tbx.py b/lsl/reader/tbx.py
index ea2664f..2ddcfd5 100644
--- a/lsl/reader/tbx.py
+++ b/lsl/reader/tbx.py
@@ -248,15 +248,17 @@ def get_frames_per_obs(filehandle):
         # Build up the list-of-lists that store the index of the first frequency
         # channel in each frame.
         channels = []
-        for i in range(2500):
+        nRead = 0
+        while nRead < 2500:
             try:
                 cFrame = read_frame(filehandle)
+                nRead += 1
                 if not cFrame.is_tbx:
                     continue
             except EOFError:
                 break
             except SyncError:
-                filehandle.seek(0, 1)
+                filehandle.seek(1, 1)
                 continue
                 
             chan = cFrame.header.first_chan
@@ -279,9 +281,13 @@ def get_first_frame_count(filehandle):
         firstFrameCount = 2**64-1
         freqs = []
         while len(freqs) < nFrames:
-            cFrame = read_frame(filehandle)
-            if not cFrame.is_tbx:
+            try:
+                cFrame = read_frame(filehandle)
+                if not cFrame.is_tbx:
                     continue
+            except SyncError:
+                filehandle.seek(1, 1)
+                continue
             freq = cFrame.header.first_chan
             
             if freq not in freqs:
@@ -304,15 +310,17 @@ def get_channel_count(filehandle):
     
     # Find out how many channels are in each frame
     with FilePositionSaver(filehandle):
-        for i in range(2500):
+        nRead = 0
+        while nRead < 2500:
             try:
                 cFrame = read_frame(filehandle)
+                nRead += 1
                 if not cFrame.is_tbx:
                     continue
             except EOFError:
                 break
             except SyncError:
-                filehandle.seek(0, 1)
+                filehandle.seek(1, 1)
                 continue
                 
             channel_count = cFrame.header.nchan
@@ -340,9 +348,13 @@ def get_first_channel(filehandle, frequency=False, all_frames=False):
         # Find the lowest frequency channel
         freqs = []
         while len(freqs) < nFrames:
-            cFrame = read_frame(filehandle)
-            if not cFrame.is_tbx:
+            try:
+                cFrame = read_frame(filehandle)
+                if not cFrame.is_tbx:
                     continue
+            except SyncError:
+                filehandle.seek(1, 1)
+                continue
             if frequency:
                 freq = cFrame.channel_freqs[0]
             else:
-- 
2.43.0


From 67ac3bd4b9786ae7a3809e8ebc39f6c9c5eb18e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:52:42 +0000
Subject: [PATCH 024/185] fix: read a whole COR file when no duration is given

---
 lsl/reader/ldp.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/lsl/reader/ldp.py b/lsl/reader/ldp.py
index df78018..92e6350 100644
--- a/lsl/reader/ldp.py
+++ b/lsl/reader/ldp.py
@@ -1959,17 +1959,18 @@ class CORFile(LDPFileBase):
                 raise errors.EOFError()
                 
         # Covert the sample rate to an expected timetag skip
-        timetagSkip = int(self.description['tint'] * fS)
+        timetagSkip = int(round(self.description['tint'] * fS))
         
         # Setup the counter variables:  frame count and time tag count
         if getattr(self, "_timetag", None) is None:
             self._timetag = 0
             
         # Find out how many frames to read in
+        framesPerObs = self.description['nchan'] // self.description['frame_channel_count'] * self.description['nbaseline']
         if duration is None:
-            duration = self.description['nframe'] / framesPerObs * self.description['tint']
+            remaining_count = self.get_remaining_frame_count()
+            duration = (-(-remaining_count // framesPerObs) + len(self.buffer.buffer)) * self.description['tint']
             LSL_LOGGER.debug(f"Requested duration is None, loading {duration:.1f} s of data")
-        framesPerObs = self.description['nchan'] // self.description['frame_channel_count'] * self.description['nbaseline']
         frame_count = int(round(1.0 * duration / self.description['tint']))
         frame_count = frame_count if frame_count else 1
         duration = frame_count * self.description['tint']
-- 
2.43.0


From 67760d6bfe0d04e4ad9623083f4c167153ffb760 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:35 +0000
Subject: [PATCH 025/185] fix: recognize short LWA data files and files that
 start with a partial frame

---
 lsl/reader/ldp.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/lsl/reader/ldp.py b/lsl/reader/ldp.py
index 92e6350..f1f23bb 100644
--- a/lsl/reader/ldp.py
+++ b/lsl/reader/ldp.py
@@ -2095,6 +2095,7 @@ def LWADataFile(filename=None, fh=None, ignore_timetag_errors=False, buffering=-
         ## Loop over the frame size to try and find what looks like valid data.  If
         ## is is found, set 'foundMatch' to True.
         for i in range(mfs):
+            mark = fh.tell()
             try:
                 junkFrame = mode.read_frame(fh)
                 foundMatch = True
@@ -2102,21 +2103,19 @@ def LWADataFile(filename=None, fh=None, ignore_timetag_errors=False, buffering=-
             except errors.EOFError:
                 break
             except errors.SyncError:
-                fh.seek(-mfs+1, 1)
+                fh.seek(mark+1)
                 
         ## Did we strike upon a valid frame?
         if foundMatch:
             ### Is so, we now need to try and read more frames to make sure we have 
             ### the correct type of file
-            fh.seek(-mfs, 1)
+            fh.seek(mark)
             
             try:
                 for i in range(2):
                     junkFrame = mode.read_frame(fh)
                 foundMode = True
-            except errors.EOFError:
-                break
-            except errors.SyncError:
+            except (errors.EOFError, errors.SyncError):
                 ### Reset for the next mode...
                 fh.seek(0)
         else:
-- 
2.43.0


From dd45c66b987ce0729389ca8634115c38cbcbe401 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:51 +0000
Subject: [PATCH 026/185] fix: count VDIF frames per second from any starting
 frame

---
 lsl/reader/vdif.py | 29 ++++++-----------------------
 1 file changed, 6 insertions(+), 23 deletions(-)

diff --git a/lsl/reader/vdif.py b/lsl/reader/vdif.py
index d4001ed..36a584d 100644
--- a/lsl/reader/vdif.py
+++ b/lsl/reader/vdif.py
@@ -514,24 +514,9 @@ def get_frames_per_second(filehandle):
     nThreads = get_thread_count(filehandle)
     
     with FilePositionSaver(filehandle):
-        # Get the current second counts for all threads
-        ref = {}
-        i = 0
-        while i < nThreads:
-            try:
-                cFrame = read_frame(filehandle)
-            except SyncError:
-                filehandle.seek(frame_size, 1)
-                continue
-            except EOFError:
-                break
-                
-            cID = cFrame.header.thread_id
-            cSC = cFrame.header.seconds_from_epoch
-            ref[cID] = cSC
-            i += 1
-            
         # Read frames until we see a change in the second counter
+        # for each of the threads
+        ref = {}
         cur = {}
         fnd = []
         while True:
@@ -550,15 +535,13 @@ def get_frames_per_second(filehandle):
             cFC = cFrame.header.frame_in_second
             
             ## Figure out what to do with it
-            if cSC == ref[cID]:
+            if cSC == ref.setdefault(cID, cSC):
                 ### Same second as the reference, save the frame number
                 cur[cID] = cFC
-            else:
+            elif cID not in fnd:
                 ### Different second than the reference, we've found something
-                ref[cID] = cSC
-                if cID not in fnd:
-                    fnd.append( cID )
-                    
+                fnd.append( cID )
+                
             if len(fnd) == nThreads:
                 break
                 
-- 
2.43.0


From b5c66c3a707d3a75899beea38eb0e424c48e14f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:01:10 +0000
Subject: [PATCH 027/185] fix: report mismatched frames with the intended
 errors

---
 lsl/reader/base.py   |  4 ++--
 lsl/reader/drspec.py | 10 +++++-----
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/lsl/reader/base.py b/lsl/reader/base.py
index 5e5ce15..2532eff 100644
--- a/lsl/reader/base.py
+++ b/lsl/reader/base.py
@@ -82,14 +82,14 @@ class FrameBase(object):
             self.header = self._header_class()
         else:
             if not isinstance(header, self._header_class):
-                raise TypeError(f"Excepted header of type '{self._header_class.__type__.__name__}' but found '{header.__type__.__name__}'")
+                raise TypeError(f"Excepted header of type '{self._header_class.__name__}' but found '{type(header).__name__}'")
             self.header = header
             
         if payload is None:
             self.payload = self._payload_class()
         else:
             if not isinstance(payload, self._payload_class):
-                raise TypeError(f"Excepted payload of type '{self._payload_class.__type__.__name__}' but found '{payload.__type__.__name__}'")
+                raise TypeError(f"Excepted payload of type '{self._payload_class.__name__}' but found '{type(payload).__name__}'")
             self.payload = payload
             
         self.valid = valid
diff --git a/lsl/reader/drspec.py b/lsl/reader/drspec.py
index cff2a52..7573534 100644
--- a/lsl/reader/drspec.py
+++ b/lsl/reader/drspec.py
@@ -387,7 +387,7 @@ class Frame(FrameBase):
                 try:
                     temp = getattr(self.payload, attr, None) + getattr(y.payload, attr, None)
                 except TypeError:
-                    raise RuntimeError(f"Cannot add {str(attrs)} with {str(y.header.get_data_products())}")
+                    raise RuntimeError(f"Cannot add {str(self.header.data_products)} with {str(y.header.data_products)}")
                 except AttributeError:
                     temp = getattr(self.payload, attr, None) + np.float32(y)
                 setattr(self.payload, attr, temp)
@@ -416,7 +416,7 @@ class Frame(FrameBase):
                 try:
                     temp = getattr(self.payload, attr, None) - getattr(y.payload, attr, None)
                 except TypeError:
-                    raise RuntimeError(f"Cannot add {str(attrs)} with {str(y.header.get_data_products())}")
+                    raise RuntimeError(f"Cannot add {str(self.header.data_products)} with {str(y.header.data_products)}")
                 except AttributeError:
                     temp = getattr(self.payload, attr, None) - np.float32(y)
                 setattr(self.payload, attr, temp)
@@ -445,7 +445,7 @@ class Frame(FrameBase):
                 try:
                     temp = getattr(self.payload, attr, None) * getattr(y.payload, attr, None)
                 except TypeError:
-                    raise RuntimeError(f"Cannot multiply {str(attrs)} with {str(y.header.get_data_products())}")
+                    raise RuntimeError(f"Cannot multiply {str(self.header.data_products)} with {str(y.header.data_products)}")
                 except AttributeError:
                     temp = getattr(self.payload, attr, None) * np.float32(y)
                 setattr(self.payload, attr, temp)
@@ -474,7 +474,7 @@ class Frame(FrameBase):
                 try:
                     temp = getattr(self.payload, attr, None) // getattr(y.payload, attr, None)
                 except TypeError:
-                    raise RuntimeError(f"Cannot multiply {str(attrs)} with {str(y.header.get_data_products())}")
+                    raise RuntimeError(f"Cannot multiply {str(self.header.data_products)} with {str(y.header.data_products)}")
                 except AttributeError:
                     temp = getattr(self.payload, attr, None) // np.float32(y)
                 setattr(self.payload, attr, temp)
@@ -503,7 +503,7 @@ class Frame(FrameBase):
                 try:
                     temp = getattr(self.payload, attr, None) / getattr(y.payload, attr, None)
                 except TypeError:
-                    raise RuntimeError(f"Cannot multiply {str(attrs)} with {str(y.header.get_data_products())}")
+                    raise RuntimeError(f"Cannot multiply {str(self.header.data_products)} with {str(y.header.data_products)}")
                 except AttributeError:
                     temp = getattr(self.payload, attr, None) / np.float32(y)
                 setattr(self.payload, attr, temp)
-- 
2.43.0


From 6be15e773757dfaf2d21ffda5154a1340d013c4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:21:49 +0000
Subject: [PATCH 028/185] fix: make file locks exclude threads that share them
 and let them nest

---
 lsl/misc/file_lock.py | 139 ++++++++++++++++++++++++------------------
 1 file changed, 80 insertions(+), 59 deletions(-)

diff --git a/lsl/misc/file_lock.py b/lsl/misc/file_lock.py
index 394372e..7992a2b 100644
--- a/lsl/misc/file_lock.py
+++ b/lsl/misc/file_lock.py
@@ -26,12 +26,14 @@ class FileLock(object):
     
     def __init__(self, filename):
         self._lockname = filename+'.lock'
-        self._locked = False
+        self._thread_lock = RLock()
+        self._owner = None
+        self._nlock = 0
         self._our_lock = None
         
     def __del__(self):
-        if self._locked:
-            self.release()
+        if self._our_lock is not None:
+            self._unlock()
             
     def __enter__(self):
         self.acquire()
@@ -41,29 +43,32 @@ class FileLock(object):
         self.release()
         
     def locked(self):
-        return self._locked
+        return self._owner is not None
         
     def acquire(self, blocking=True, timeout=120):
         t0 = time.time()
         emit_waiting_warning = 0
         
+        # Keep the other threads that share this instance out and stop here if
+        # this thread already has the lock.
+        if not self._thread_lock.acquire(blocking, timeout if blocking else -1):
+            return False
         ident = current_thread().ident
-        while not self._locked:
-            try:
-                # Open the lock file and try to read the thread ID of who owns
-                # it
-                fh = open(self._lockname, 'a+')
+        if self._owner == ident:
+            self._nlock += 1
+            return True
+            
+        locked = False
+        try:
+            while not locked:
+                fh = None
                 try:
-                    owner_ident = int(fh.read(), 10)
-                except ValueError:
-                    owner_ident = 0
-                    
-                if ident != owner_ident:
-                    ## If we don't own it, try to claim an exclusive lock on it.
+                    # Open the lock file and try to claim an exclusive lock on it.
+                    fh = open(self._lockname, 'a+')
                     fcntl.flock(fh, fcntl.LOCK_EX|fcntl.LOCK_NB)
                     
-                    ## Verify that the lock file and what we just opened are the
-                    ## the same file.  If not then give up.
+                    # Verify that the lock file and what we just opened are the
+                    # the same file.  If not then give up.
                     fh_stat = os.fstat(fh.fileno())
                     lock_stat  = os.stat(fh.name)
                     if fh_stat.st_ino != lock_stat.st_ino:
@@ -71,53 +76,64 @@ class FileLock(object):
                         err.errno = errno.EAGAIN
                         raise err
                         
-                    ## Write our thread ID to the file and save the file handle
-                    ## to _our_lock so that we know that we need to clean things
-                    ## up when we are done.
+                    # Write our thread ID to the file and save the file handle
+                    # to _our_lock so that we know that we need to clean things
+                    # up when we are done.
                     fh.truncate(0)
                     fh.write("%i" % ident)
                     fh.flush()
                     self._our_lock = fh
-                else:
-                    ## If we do already own it then there is nothing else to do.
-                    fh.close()
-                    self._our_lock = None
-                self._locked = True
-                
-            except IOError as e:
-                fh.close()
-                if e.errno != errno.EAGAIN:
-                    raise
-                if blocking:
-                    tElapsed = time.time() - t0
-                    if int(tElapsed/15) != emit_waiting_warning:
-                        warnings.warn(f"Waiting {tElapsed:.0f} s to acquire lock on '{self._lockname}'")
-                        emit_waiting_warning = int(tElapsed/15)
-                        
-                    if tElapsed > timeout:
+                    self._owner = ident
+                    self._nlock = 1
+                    locked = True
+                    
+                except IOError as e:
+                    if fh is not None:
+                        fh.close()
+                    if e.errno != errno.EAGAIN:
+                        raise
+                    if blocking:
+                        tElapsed = time.time() - t0
+                        if int(tElapsed/15) != emit_waiting_warning:
+                            warnings.warn(f"Waiting {tElapsed:.0f} s to acquire lock on '{self._lockname}'")
+                            emit_waiting_warning = int(tElapsed/15)
+                            
+                        if tElapsed > timeout:
+                            break
+                    else:
                         break
-                else:
-                    break
-                time.sleep(0.01)
-               
-        return self._locked
+                    time.sleep(0.01)
+                    
+        finally:
+            if not locked:
+                self._thread_lock.release()
+                
+        return locked
+        
+    def _unlock(self):
+        # To cleanup we truncate the file and then release the lock.
+        self._our_lock.truncate(0)
+        self._our_lock.flush()
+        fcntl.flock(self._our_lock, fcntl.LOCK_UN)
+        self._our_lock.close()
+        self._our_lock = None
         
     def release(self):
-        if self._our_lock is not None:
-            # To cleanup we truncate the file and then release the lock.
-            self._our_lock.truncate(0)
-            self._our_lock.flush()
-            fcntl.flock(self._our_lock, fcntl.LOCK_UN)
-            self._our_lock.close()
-            self._our_lock = None
-        self._locked = False
+        # Only the thread that has the lock can give it up
+        if self._owner == current_thread().ident:
+            self._nlock -= 1
+            if self._nlock == 0:
+                self._unlock()
+                self._owner = None
+            self._thread_lock.release()
         return True
 
 
 class MemoryLock(object):
     def __init__(self, filename):
         self._lock = RLock()
-        self._locked = False
+        self._owner = None
+        self._nlock = 0
         
     def __enter__(self):
         self.acquire()
@@ -127,15 +143,20 @@ class MemoryLock(object):
         self.release()
         
     def locked(self):
-        return self._locked
+        return self._owner is not None
         
     def acquire(self, blocking=True, timeout=120):
-        try:
-            self._locked = self._lock.acquire(blocking, timeout)
-        except TypeError:
-            self._locked = self._lock.acquire(blocking)
-        return self._locked
+        if not self._lock.acquire(blocking, timeout if blocking else -1):
+            return False
+        self._owner = current_thread().ident
+        self._nlock += 1
+        return True
         
     def release(self):
-        self._lock.release()
-        self._locked = False
+        # Only the thread that has the lock can give it up
+        if self._owner == current_thread().ident:
+            self._nlock -= 1
+            if self._nlock == 0:
+                self._owner = None
+            self._lock.release()
+        return True
-- 
2.43.0


From 1b8146ae486a7cbd48cdebac9de330f3662011c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:22:16 +0000
Subject: [PATCH 029/185] fix: keep file caches within their size without
 hanging or losing the file in use

---
 lsl/misc/file_cache.py | 105 +++++++++++++++++++----------------------
 1 file changed, 49 insertions(+), 56 deletions(-)

diff --git a/lsl/misc/file_cache.py b/lsl/misc/file_cache.py
index 0f8714d..06af05e 100644
--- a/lsl/misc/file_cache.py
+++ b/lsl/misc/file_cache.py
@@ -5,7 +5,6 @@ Module that provides classes for file cache management.
 """
 
 import os
-import glob
 import time
 import contextlib
 from threading import Lock
@@ -37,16 +36,8 @@ class FileCache(object):
         self._lock = FileLock(os.path.join(self.cache_dir, 'cache_access'))
         
         # Create the cache directory as needed
-        needed = []
-        while not os.path.exists(self.cache_dir):
-            self.cache_dir, dir = self.cache_dir.rsplit(os.path.sep, 1)
-            needed.append(dir)
-        needed.reverse()
-        
-        for dir in needed:
-            self.cache_dir = os.path.join(self.cache_dir, dir)
-            os.mkdir(self.cache_dir)
-            
+        os.makedirs(self.cache_dir, exist_ok=True)
+        
         # Make sure we can write here
         with self._lock:
             if not self._lock.locked():
@@ -58,28 +49,34 @@ class FileCache(object):
     def __contains__(self, filename):
         return os.path.exists(os.path.join(self.cache_dir, filename))
         
-    def _cache_management(self):
+    def _cache_management(self, current=None):
         try:
             max_size = self.max_size()
         except TypeError:
             max_size = self.max_size
             
         if max_size > 0:
-            filenames = glob.glob(os.path.join(self.cache_dir, '*'))
+            filenames = []
+            for root,_,names in os.walk(self.cache_dir):
+                filenames.extend([os.path.join(root, name) for name in names])
             filenames = list(filter(lambda x:os.path.basename(x) != 'cache_access.lock', filenames))
-            sizes = [os.path.getsize(f)/1024.**2 for f in filenames]
+            sizes = [os.path.getsize(f) for f in filenames]
             mtimes = [os.path.getmtime(f) for f in filenames]
             
-            # Delete until we mee the cache size limit or until there is only one
-            # file left (the most recent one)
-            while sum(sizes) > max_size and len(filenames) > 1:
-                oldest = min(mtimes)
-                idx = mtimes.index(oldest)
+            # Delete until we meet the cache size limit or until there is only one
+            # file left (the most recent one) without touching the file that is
+            # about to be written
+            total_size = sum(sizes)
+            nfile = len(filenames)
+            for mtime,filename,size in sorted(zip(mtimes, filenames, sizes)):
+                if total_size <= max_size*1024**2 or nfile <= 1:
+                    break
+                if filename == current:
+                    continue
                 try:
-                    os.unlink(filenames[idx])
-                    del filenames[idx]
-                    del sizes[idx]
-                    del mtimes[idx]
+                    os.unlink(filename)
+                    total_size -= size
+                    nfile -= 1
                 except OSError:
                     pass
                     
@@ -92,24 +89,20 @@ class FileCache(object):
         handle is returned.
         """
         
-        self._lock.acquire()
-        assert(self._lock.locked())
+        acquired = self._lock.acquire()
+        assert(acquired)
         
-        if mode.startswith('w') or mode.startswith('a'):
-            parent_dirs = os.path.dirname(filename)
-            if parent_dirs != '':
-                parent_dirs = os.path.join(self.cache_dir, parent_dirs)
-                if not os.path.exists(parent_dirs):
-                    os.makedirs(parent_dirs, exist_ok=True)
-                    
-        fh = open(os.path.join(self.cache_dir, filename), mode)
-        if mode.startswith('w') or mode.startswith('a'):
-            self._cache_management()
-            
         try:
-            yield fh
+            fullname = os.path.join(self.cache_dir, filename)
+            if mode.startswith('w') or mode.startswith('a'):
+                os.makedirs(os.path.dirname(fullname), exist_ok=True)
+                
+            with open(fullname, mode) as fh:
+                if mode.startswith('w') or mode.startswith('a'):
+                    self._cache_management(current=fullname)
+                    
+                yield fh
         finally:
-            fh.close()
             self._lock.release()
             
     def remove(self, filename):
@@ -117,8 +110,8 @@ class FileCache(object):
         Remove the specified filename from the cache.
         """
         
-        self._lock.acquire()
-        assert(self._lock.locked())
+        acquired = self._lock.acquire()
+        assert(acquired)
         
         try:
             os.unlink(os.path.join(self.cache_dir, filename))
@@ -132,8 +125,8 @@ class FileCache(object):
         Return the size of a file in the cache.
         """
         
-        self._lock.acquire()
-        assert(self._lock.locked())
+        acquired = self._lock.acquire()
+        assert(acquired)
         
         try:
             size = os.path.getsize(os.path.join(self.cache_dir, filename))
@@ -149,8 +142,8 @@ class FileCache(object):
         Return the last modificaton time of a file in the cache.
         """
         
-        self._lock.acquire()
-        assert(self._lock.locked())
+        acquired = self._lock.acquire()
+        assert(acquired)
         
         try:
             mtime = os.path.getmtime(os.path.join(self.cache_dir, filename))
@@ -166,8 +159,8 @@ class FileCache(object):
         Return the os.stat_result value for a file in the cache.
         """
         
-        self._lock.acquire()
-        assert(self._lock.locked())
+        acquired = self._lock.acquire()
+        assert(acquired)
         
         try:
             fstat = os.stat(os.path.join(self.cache_dir, filename))
@@ -425,8 +418,8 @@ class MemoryCache(object):
         instance is returned.
         """
         
-        self._lock.acquire()
-        assert(self._lock.locked())
+        acquired = self._lock.acquire()
+        assert(acquired)
         
         try:
             fh = self._cache[filename]
@@ -449,8 +442,8 @@ class MemoryCache(object):
         Remove the specified filename from the cache.
         """
         
-        self._lock.acquire()
-        assert(self._lock.locked())
+        acquired = self._lock.acquire()
+        assert(acquired)
         
         try:
             del self._cache[filename]
@@ -464,8 +457,8 @@ class MemoryCache(object):
         Return the size of a file in the cache.
         """
         
-        self._lock.acquire()
-        assert(self._lock.locked())
+        acquired = self._lock.acquire()
+        assert(acquired)
         
         try:
             size = self._cache[filename].size
@@ -481,8 +474,8 @@ class MemoryCache(object):
         Return the last modification time of a file in the cache.
         """
         
-        self._lock.acquire()
-        assert(self._lock.locked())
+        acquired = self._lock.acquire()
+        assert(acquired)
         
         try:
             mtime = self._cache[filename].stat['st_mtime']
@@ -498,8 +491,8 @@ class MemoryCache(object):
         Return the mf_stat_result value for a file in the cache.
         """
         
-        self._lock.acquire()
-        assert(self._lock.locked())
+        acquired = self._lock.acquire()
+        assert(acquired)
         
         try:
             fstat = self._cache[filename].stat
-- 
2.43.0


From fce00cdfacc724e1bba84cd3759d97e043694140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:22:25 +0000
Subject: [PATCH 030/185] fix: make the memory cache behave like the file cache

---
 lsl/misc/file_cache.py | 66 ++++++++++++++++++++++++------------------
 1 file changed, 38 insertions(+), 28 deletions(-)

diff --git a/lsl/misc/file_cache.py b/lsl/misc/file_cache.py
index 06af05e..eddfbc9 100644
--- a/lsl/misc/file_cache.py
+++ b/lsl/misc/file_cache.py
@@ -207,8 +207,9 @@ class MemoryFile(object):
         
     def __iter__(self):
         contents = self.readline()
-        if len(contents) > 0:
+        while len(contents) > 0:
             yield contents
+            contents = self.readline()
             
     @property
     def closed(self):
@@ -255,7 +256,9 @@ class MemoryFile(object):
             self._ctime = time.time()
         self._closed = False
         self._is_binary = (mode.find('b') != -1)
-        
+        if mode.startswith('a'):
+            self._buffer.seek(0, 2)
+            
         return self
             
     def seek(self, pos, whence=0):
@@ -355,7 +358,8 @@ class MemoryFile(object):
         Close the buffer and release the access lock.
         """
         
-        self._buffer.flush()
+        if not self._closed:
+            self.flush()
         self._buffer.seek(0)
         self._closed = True
         if self._lock.locked():
@@ -385,7 +389,7 @@ class MemoryCache(object):
     def __contains__(self, filename):
         return filename in self._cache
             
-    def _cache_management(self):
+    def _cache_management(self, current=None):
         try:
             max_size = self.max_size()
         except TypeError:
@@ -393,21 +397,22 @@ class MemoryCache(object):
             
         if max_size > 0:
             filenames = list(self._cache.keys())
-            sizes = [self._cache[filename].size/1024.**2 for filename in filenames]
+            sizes = [self._cache[filename].size for filename in filenames]
             mtimes = [self._cache[filename]._mtime for filename in filenames]
             
-            # Delete until we mee the cache size limit or until there is only one
-            # file left (the most recent one)
-            while sum(sizes) > max_size and len(filenames) > 1:
-                oldest = min(mtimes)
-                idx = mtimes.index(oldest)
-                
-                filename = filenames[idx]
+            # Delete until we meet the cache size limit or until there is only one
+            # file left (the most recent one) without touching the file that is
+            # about to be written
+            total_size = sum(sizes)
+            nfile = len(filenames)
+            for mtime,filename,size in sorted(zip(mtimes, filenames, sizes)):
+                if total_size <= max_size*1024**2 or nfile <= 1:
+                    break
+                if filename == current:
+                    continue
                 del self._cache[filename]
-                
-                del filenames[idx]
-                del sizes[idx]
-                del mtimes[idx]
+                total_size -= size
+                nfile -= 1
                 
     @contextlib.contextmanager
     def open(self, filename, mode='r'):
@@ -422,19 +427,24 @@ class MemoryCache(object):
         assert(acquired)
         
         try:
-            fh = self._cache[filename]
-        except KeyError:
-            self._cache[filename] = MemoryFile(filename)
-            fh = self._cache[filename]
-        if mode.startswith('w'):
-            fh.truncate(0)
-        if mode.startswith('w') or mode.startswith('a'):
-            self._cache_management()
+            try:
+                fh = self._cache[filename]
+            except KeyError:
+                if not (mode.startswith('w') or mode.startswith('a')):
+                    raise FileNotFoundError(f"No such file in the cache: '{filename}'")
+                fh = self._cache[filename] = MemoryFile(filename)
+            fh.open(mode=mode)
             
-        try:
-            yield fh.open(mode=mode)
+            try:
+                if mode.startswith('w'):
+                    fh.truncate(0)
+                if mode.startswith('w') or mode.startswith('a'):
+                    self._cache_management(current=filename)
+                    
+                yield fh
+            finally:
+                fh.close()
         finally:
-            fh.close()
             self._lock.release()
             
     def remove(self, filename):
@@ -478,7 +488,7 @@ class MemoryCache(object):
         assert(acquired)
         
         try:
-            mtime = self._cache[filename].stat['st_mtime']
+            mtime = self._cache[filename]._mtime
         except KeyError:
             raise OSError()
         finally:
-- 
2.43.0


From 6a738a5aa4bfa7158eccbee7168cc5a2a4b7321a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:25:29 +0000
Subject: [PATCH 031/185] fix: never cache an incomplete data file

---
 lsl/common/data_access.py | 93 ++++++++++++++++++++++-----------------
 lsl/misc/file_cache.py    | 30 +++++++++++++
 2 files changed, 83 insertions(+), 40 deletions(-)

diff --git a/lsl/common/data_access.py b/lsl/common/data_access.py
index 3069976..1b49cab 100644
--- a/lsl/common/data_access.py
+++ b/lsl/common/data_access.py
@@ -4,14 +4,13 @@ import sys
 import time
 import zlib
 import shutil
-import socket
 import logging
 import calendar
 import warnings
 import contextlib
 from datetime import datetime
 from urllib.request import Request, urlopen
-from urllib.error import HTTPError
+from http.client import HTTPException
 
 from lsl.common.paths import DATA as DATA_PATH
 from lsl.common.progress import DownloadBar
@@ -108,7 +107,7 @@ def download_file(url, filename_or_fh, byte_range=None, verbose=True):
         mtime = 0.0
         remote_size = 0
         with urlopen(req, timeout=DOWN_CONFIG.get('timeout')) as uh:
-            remote_size = int(uh.headers["Content-Length"])
+            remote_size = int(uh.headers["Content-Length"] or 0)
             mtime = uh.headers['Last-Modified']
             is_gzip = (uh.headers['Content-Encoding'] == 'gzip')
             if is_gzip:
@@ -142,14 +141,14 @@ def download_file(url, filename_or_fh, byte_range=None, verbose=True):
             if is_interactive:
                 sys.stdout.write(pbar.show()+'\n')
                 sys.stdout.flush()
-    except IOError as e:
+                
+            # Make sure that we have everything
+            if received < remote_size or (is_gzip and not decomp.eof):
+                raise IOError(f"file is truncated after {received} B")
+    except (IOError, HTTPException, ValueError, zlib.error) as e:
         if verbose:
             warnings.warn(colorfy("{{%%yellow Error downloading file from %s: %s}}" % (url, str(e))), RuntimeWarning)
-        received = 0
-    except (socket.timeout, TimeoutError):
-        received = 0
-    except HTTPError:
-        received = 0
+        remote_size, received, mtime = 0, 0, 0.0
         
     if do_close:
         filename_or_fh.close()
@@ -193,13 +192,14 @@ class _DataAccess(object):
         """
         
         metaname = filename+'_meta'
+        partname = filename+'_part'
         
         local_path = os.path.join(DATA_PATH, relative_url)
         
         received = 0
         if os.path.exists(local_path):
             with open(local_path, 'rb') as uh:
-                with self._data_cache.open(filename, 'wb') as fh:
+                with self._data_cache.open(partname, 'wb') as fh:
                     while True:
                         data = uh.read(DOWN_CONFIG.get('block_size'))
                         if len(data) == 0:
@@ -207,19 +207,21 @@ class _DataAccess(object):
                         received += len(data)
                         
                         fh.write(data)
+                    fh.flush()
+                    
+                    # Did we get anything or, at least, enough of something like it
+                    # looks like a real file?
+                    if received >= 3:
+                        with self._data_cache.open(metaname, 'w') as mh:
+                            mh.write(f"created: {time.time():.0f}\n")
+                            mh.write(f"source: {local_path}\n")
+                            mh.write(f"source size: {os.path.getsize(local_path)} B\n")
+                            mh.write(f"source last modified: {os.path.getmtime(local_path):.0f}\n")
+                        self._data_cache.rename(partname, filename)
                         
-            with self._data_cache.open(metaname, 'w') as fh:
-                fh.write(f"created: {time.time():.0f}\n")
-                fh.write(f"source: {local_path}\n")
-                fh.write(f"source size: {os.path.getsize(local_path)} B\n")
-                fh.write(f"source last modified: {os.path.getmtime(local_path):.0f}\n")
-                
-        # Did we get anything or, at least, enough of something like it looks like 
-        # a real file?
         if received < 3:
             ## Fail
-            self._data_cache.remove(filename)
-            self._data_cache.remove(metaname)
+            self._data_cache.remove(partname)
             return False
             
         return True
@@ -242,6 +244,7 @@ class _DataAccess(object):
         is_interactive = sys.__stdin__.isatty()
         
         metaname = filename+'_meta'
+        partname = filename+'_part'
         
         # Attempt to download the data
         url = self._BASE_URL+'/'+relative_url
@@ -249,25 +252,39 @@ class _DataAccess(object):
             url = self._BACKUP_URL+'/'+relative_url
             
         mtime = 0
-        with self._data_cache.open(filename, 'wb') as fh:
+        with self._data_cache.open(partname, 'wb') as fh:
             remote_size, received, mtime = download_file(url, fh, verbose=verbose)
+            fh.flush()
             
-        with self._data_cache.open(metaname, 'w') as fh:
-            fh.write(f"created: {time.time():.0f}\n")
-            fh.write(f"source: {url}\n")
-            fh.write(f"source size: {remote_size} B\n")
-            fh.write(f"source last modified: {mtime:.0f}\n")
-            
-        # Did we get anything or, at least, enough of something like it looks like 
-        # a real file?
+            # Did we get anything or, at least, enough of something like it looks
+            # like a real file?
+            if received >= 3:
+                with self._data_cache.open(metaname, 'w') as mh:
+                    mh.write(f"created: {time.time():.0f}\n")
+                    mh.write(f"source: {url}\n")
+                    mh.write(f"source size: {remote_size} B\n")
+                    mh.write(f"source last modified: {mtime:.0f}\n")
+                self._data_cache.rename(partname, filename)
+                
         if received < 3:
             ## Fail
-            self._data_cache.remove(filename)
-            self._data_cache.remove(metaname)
+            self._data_cache.remove(partname)
             return False
             
         return True
         
+    def _fetch_worker(self, filename, verbose=True):
+        """
+        Copy the file from the base LSL installation or download it.
+        """
+        
+        status = self._local_copy_worker(filename, filename, verbose=verbose)
+        if not status:
+            status = self._download_worker(filename, filename, use_backup=False, verbose=verbose)
+        if not status:
+            status = self._download_worker(filename, filename, use_backup=True, verbose=verbose)
+        return status
+        
     def fetch_data_file(self, filename):
         """
         Make sure that a LSL data file exists.  If it does not copy the file
@@ -278,11 +295,7 @@ class _DataAccess(object):
         
         if filename not in self._data_cache:
             # No file, go get one.
-            status = self._local_copy_worker(filename, filename, verbose=verbose)
-            if not status:
-                status = self._download_worker(filename, filename, use_backup=False, verbose=verbose)
-            if not status:
-                status = self._download_worker(filename, filename, use_backup=True, verbose=verbose)
+            status = self._fetch_worker(filename, verbose=verbose)
             if not status:
                 raise RuntimeError(f"Failed to download '{filename}'")
                 
@@ -299,10 +312,10 @@ class _DataAccess(object):
                     remote_mtime = self._download_mtime(filename, use_backup=True, verbose=verbose)
                     
                 if max([local_mtime, remote_mtime]) > cache_mtime:
-                    ## Found something newer.  Delete the current version and
-                    ## copy/download again.
-                    self._data_cache.remove(filename)
-                    self.fetch_data_file(filename)
+                    ## Found something newer.  Copy/download again and keep the
+                    ## current version if that does not work.
+                    if not self._fetch_worker(filename, verbose=verbose):
+                        LSL_LOGGER.warning(f"Failed to refresh '{filename}', using the current version")
                     
     @contextlib.contextmanager
     def open(self, filename, mode='r'):
diff --git a/lsl/misc/file_cache.py b/lsl/misc/file_cache.py
index eddfbc9..6d07678 100644
--- a/lsl/misc/file_cache.py
+++ b/lsl/misc/file_cache.py
@@ -120,6 +120,20 @@ class FileCache(object):
         finally:
             self._lock.release()
             
+    def rename(self, filename, new_filename):
+        """
+        Rename a file in the cache, replacing any existing file with that name.
+        """
+        
+        acquired = self._lock.acquire()
+        assert(acquired)
+        
+        try:
+            os.replace(os.path.join(self.cache_dir, filename),
+                       os.path.join(self.cache_dir, new_filename))
+        finally:
+            self._lock.release()
+            
     def getsize(self, filename):
         """
         Return the size of a file in the cache.
@@ -462,6 +476,22 @@ class MemoryCache(object):
         finally:
             self._lock.release()
             
+    def rename(self, filename, new_filename):
+        """
+        Rename a file in the cache, replacing any existing file with that name.
+        """
+        
+        acquired = self._lock.acquire()
+        assert(acquired)
+        
+        try:
+            self._cache[new_filename] = self._cache.pop(filename)
+            self._cache[new_filename].name = new_filename
+        except KeyError:
+            raise OSError()
+        finally:
+            self._lock.release()
+            
     def getsize(self, filename):
         """
         Return the size of a file in the cache.
-- 
2.43.0


From da063212b5ed16bedef8bf6e0b1540c38e343f2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:47:27 +0000
Subject: [PATCH 032/185] fix: report zeros when the metadata of a URL cannot
 be read

---
 lsl/common/data_access.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lsl/common/data_access.py b/lsl/common/data_access.py
index 1b49cab..2ae70f0 100644
--- a/lsl/common/data_access.py
+++ b/lsl/common/data_access.py
@@ -63,7 +63,8 @@ def check_url(url, byte_range=None, verbose=True):
     except Exception as e:
         if verbose:
             warnings.warn(colorfy("{{%%yellow Error polling metadata from %s: %s}}" % (url, str(e))), RuntimeWarning)
-            
+        remote_size, mtime = 0, 0.0
+        
     return remote_size, mtime
 
 
-- 
2.43.0


From bb1f57cf822bfef26cb444a42569b7b661183b83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:49:50 +0000
Subject: [PATCH 033/185] fix: save the configuration whole and keep what other
 sessions saved

---
 lsl/config.py | 41 ++++++++++++++++++++++++-----------------
 1 file changed, 24 insertions(+), 17 deletions(-)

diff --git a/lsl/config.py b/lsl/config.py
index 9a38c92..72159eb 100644
--- a/lsl/config.py
+++ b/lsl/config.py
@@ -313,26 +313,33 @@ class LSLConfigContainer(object):
         Save the configuation to disk.
         """
         
-        if not _IS_READONLY:
-            if os.path.exists(self.filename) and len(self._param_changed_list) > 0:
-                mtime = os.path.getmtime(self.filename)
-                if mtime > self._loaded:
-                    # The file was modified on disk after we loaded it
-                    # Abandon our parameter changes but still save if version changed
-                    warnings.warn('\u001b[33mConfiguration file changed on disk, abandoning changes from this session\u001b[0m', RuntimeWarning)
-                    for key,value in self._param_changed_list.items():
-                        warnings.warn("\u001b[33m  %s: %s -> %s\u001b[0m" % (key, value[0], value[1]), RuntimeWarning)
-                    self._param_changed_list.clear()
-                    # Don't reset _param_changed if version changed - we still need to update the file
-                    if not self._version_changed:
+        if not _IS_READONLY and self._param_changed:
+            with FileLock(self.filename) as lock:
+                assert(lock.locked())
+                
+                if os.path.exists(self.filename):
+                    mtime = os.path.getmtime(self.filename)
+                    if mtime > self._loaded:
+                        # The file was modified on disk after we loaded it
+                        # Abandon our parameter changes for what is on disk but
+                        # still save if the version changed
+                        if len(self._param_changed_list) > 0:
+                            warnings.warn('\u001b[33mConfiguration file changed on disk, abandoning changes from this session\u001b[0m', RuntimeWarning)
+                            for key,value in self._param_changed_list.items():
+                                warnings.warn("\u001b[33m  %s: %s -> %s\u001b[0m" % (key, value[0], value[1]), RuntimeWarning)
+                        self._version_changed = False
                         self._param_changed = False
+                        self._param_changed_list.clear()
+                        self._load_config()
                         
-            if self._param_changed:
-                with FileLock(self.filename) as lock:
-                    assert(lock.locked())
-                    
-                    with open(self.filename, 'w') as fh:
+                if self._param_changed:
+                    # Write everything to a temporary file first so that there is
+                    # always a complete configuration file on disk
+                    tempname = self.filename+'.tmp'
+                    with open(tempname, 'w') as fh:
                         fh.write(str(self))
+                    os.replace(tempname, self.filename)
+                    self._loaded = os.path.getmtime(self.filename)
                     self._version_changed = False
                     self._param_changed = False
                     self._param_changed_list.clear()
-- 
2.43.0


From 63d53765a4f35f4a14aa9a73ec41922b723208f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:49:50 +0000
Subject: [PATCH 034/185] fix: do not report a KeyError inside of set_temp as
 an unknown parameter

---
 lsl/config.py | 25 ++++++++++++-------------
 1 file changed, 12 insertions(+), 13 deletions(-)

diff --git a/lsl/config.py b/lsl/config.py
index 72159eb..42818cd 100644
--- a/lsl/config.py
+++ b/lsl/config.py
@@ -415,21 +415,20 @@ class LSLConfigContainer(object):
         try:
             old_value = self._parameters[name].value
             is_optional = self._parameters[name].is_optional
-            
-            # Allow type changes only for optional parameters (those with None defaults)
-            # For non-optional parameters, enforce strict type checking
-            if type(value) != type(old_value) and not is_optional:
-                raise TypeError("Expected %s but found %s for '%s'" % (type(old_value).__name__,
-                                                                       type(value).__name__,
-                                                                       name))
-            self._parameters[name].value = value
-            try:
-                yield
-            finally:
-                self._parameters[name].value = old_value
-                
         except KeyError:
             raise ValueError(f"Unknown parameter '{name}'")
+            
+        # Allow type changes only for optional parameters (those with None defaults)
+        # For non-optional parameters, enforce strict type checking
+        if type(value) != type(old_value) and not is_optional:
+            raise TypeError("Expected %s but found %s for '%s'" % (type(old_value).__name__,
+                                                                   type(value).__name__,
+                                                                   name))
+        self._parameters[name].value = value
+        try:
+            yield
+        finally:
+            self._parameters[name].value = old_value
 
 
 class LSLConfigSubContainer(object):
-- 
2.43.0


From 53d1e050e40f5c10ab9820892f49b324eee28df3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:49:50 +0000
Subject: [PATCH 035/185] fix: let configuration views set parameters by their
 full names

---
 lsl/config.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/lsl/config.py b/lsl/config.py
index 42818cd..8ed70fb 100644
--- a/lsl/config.py
+++ b/lsl/config.py
@@ -459,9 +459,9 @@ class LSLConfigSubContainer(object):
         
         try:
             self.container.set(self.section+'.'+name, value)
-        except KeyError:
+        except ValueError:
             self.container.set(name, value)
-        
+            
     def set_temp(self, name, value):
         """
         Temporarily set the value of a parameter.  This value will not persist
@@ -469,9 +469,11 @@ class LSLConfigSubContainer(object):
         """
         
         try:
-            return self.container.set_temp(self.section+'.'+name, value)
-        except KeyError:
-            return self.container.set_temp(name, value)
+            self.container.get(self.section+'.'+name)
+            name = self.section+'.'+name
+        except ValueError:
+            pass
+        return self.container.set_temp(name, value)
 
 
 #: The LSLConfigContainer that users should use
-- 
2.43.0


From 79508d40be91ff5240f77c5f1e539b8eb663862c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:49:50 +0000
Subject: [PATCH 036/185] fix: make telemetry.ignore() stop the telemetry

---
 lsl/misc/telemetry/__init__.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/lsl/misc/telemetry/__init__.py b/lsl/misc/telemetry/__init__.py
index 174d27c..5cbda9d 100644
--- a/lsl/misc/telemetry/__init__.py
+++ b/lsl/misc/telemetry/__init__.py
@@ -221,8 +221,7 @@ class _TelemetryClient(object):
         Disable saving data to the telemetry cache in a temporary way.
         """
         
-        TELE_CONFIG.set_temp('enabled', False)
-        self.active = TELE_CONFIG.get('enabled')
+        self.active = False
 
 
 # Create an instance of the telemetry client to use.
-- 
2.43.0


From 249cf02bccc3d61264a5c85903fbd1994ba1deda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:51:33 +0000
Subject: [PATCH 037/185] fix: keep telemetry written within the same second

---
 lsl/misc/telemetry/__init__.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/lsl/misc/telemetry/__init__.py b/lsl/misc/telemetry/__init__.py
index 5cbda9d..6e04b5c 100644
--- a/lsl/misc/telemetry/__init__.py
+++ b/lsl/misc/telemetry/__init__.py
@@ -169,7 +169,13 @@ class _TelemetryClient(object):
                                'elapsed_time': tNow-self._session_start,
                                'calls':        call_payload}
                     
-                    filename = os.path.join(_CACHE_DIR, 'telemetry_%i_%i.log' % (int(tNow), os.getpid()))
+                    basename = os.path.join(_CACHE_DIR, 'telemetry_%i_%i' % (int(tNow), os.getpid()))
+                    filename = basename+'.log'
+                    count = 0
+                    while os.path.exists(filename):
+                        ## Don't overwrite what was written earlier this second
+                        count += 1
+                        filename = basename+'_%i.log' % count
                     with open(filename, 'w') as lf:
                         lf.write(json.dumps(payload))
                     self.clear()
-- 
2.43.0


From 62fb69b27a752a1e6744102c8dc175275fc22e10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:53:18 +0000
Subject: [PATCH 038/185] fix: show the progress of downloads of unknown size

---
 lsl/common/data_access.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lsl/common/data_access.py b/lsl/common/data_access.py
index 2ae70f0..60eb620 100644
--- a/lsl/common/data_access.py
+++ b/lsl/common/data_access.py
@@ -122,7 +122,7 @@ def download_file(url, filename_or_fh, byte_range=None, verbose=True):
                     warnings.warn(f"Cannot find a 'Last-Modified' time for {url}, modification time will be set to zero")
                 mtime = 0.0
                 
-            pbar = DownloadBar(max=remote_size)
+            pbar = DownloadBar(max=max([remote_size, 1]))
             received = 0
             while True:
                 data = uh.read(DOWN_CONFIG.get('block_size'))
-- 
2.43.0


From 18c3f883ce78af08bab4b26dad75d469d1154005 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:53:18 +0000
Subject: [PATCH 039/185] fix: color text with backslashes, line breaks and
 unmatched braces

---
 lsl/common/color.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/lsl/common/color.py b/lsl/common/color.py
index ccf26ec..4d42dfc 100644
--- a/lsl/common/color.py
+++ b/lsl/common/color.py
@@ -59,15 +59,15 @@ def _label(text):
         ## there is a '%' immediately afterwards.  For closing we need to make 
         ## sure we actually have a valid level to close.
         if tag == '{{':
-            if post[0] == '%':
+            if post[:1] == '%':
                 tag = '{{'+str(level)+tag
                 level += 1
-                pos = pos + 4
+                pos = pos + len(tag) - 1
         if tag == '}}':
-            level -=1
-            if level >= 0:
+            if level > 0:
+                level -= 1
                 tag = tag+str(level)+'}}'
-                pos = pos + 4
+                pos = pos + len(tag) - 1
         text = pre+tag+post
         pos += 1
         
@@ -114,7 +114,7 @@ def colorfy(text):
     # Parse 3 - Work at each level to convert the tags to ANSI sequences
     for level in range(max(levels), -1, -1):
         ## Build the regular expression needed for this depth
-        tagRE = re.compile('{{'+str(level)+'{{%(?P<tag>[a-zA-Z-]+) (?P<text>.*?)}}'+str(level)+'}}')
+        tagRE = re.compile('{{'+str(level)+'{{%(?P<tag>[a-zA-Z-]+) (?P<text>.*?)}}'+str(level)+'}}', re.DOTALL)
         
         ## Match and replace until there is nothing left to match
         pos = 0
@@ -135,7 +135,7 @@ def colorfy(text):
             repl = tag+txt
             repl = repl.replace(_COLORS['reset'], _COLORS['reset']+tag)
             repl = repl+_COLORS['reset']
-            text = tagRE.sub(repl, text, count=1)
+            text = text[:mtch.start()]+repl+text[mtch.end():]
             
             ### Get the next match
             mtch = tagRE.search(text, pos)
-- 
2.43.0


From 257559b13bbb151feeef85400e61bde71bad6df4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:53:18 +0000
Subject: [PATCH 040/185] fix: stop the busy indicator before reporting the
 result

---
 lsl/common/busy.py | 25 ++++++++++++++-----------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/lsl/common/busy.py b/lsl/common/busy.py
index e400d0f..eb6cf86 100644
--- a/lsl/common/busy.py
+++ b/lsl/common/busy.py
@@ -80,6 +80,9 @@ class BusyIndicator(object):
         """
         
         if self.thread is not None:
+            self.alive.clear()
+            self.thread.join()
+            
             if self.color is None:
                 out = "%s%s%s%s\n" % (self.message, 
                                       '.'*self._i, 
@@ -93,8 +96,6 @@ class BusyIndicator(object):
                                                        ' '*self.dots))
             sys.stdout.write(out)
             
-            self.alive.clear()
-            self.thread.join()
             self.thread = None
             self._i = 0
             
@@ -187,15 +188,17 @@ class BusyIndicatorPlus(BusyIndicator):
         return out
         
     def stop(self, success=True):
-        out = getattr(self, "_render_%s" % self.style)(active=False)
-        out = "%s%s%s\n" % (self.message, out, 'Done  ' if success else 'Failed')
-        sys.stdout.write(out)
-        
-        self.alive.clear()
-        self.thread.join()
-        self.thread = None
-        self._i = 0
-        self._dir = 1
+        if self.thread is not None:
+            self.alive.clear()
+            self.thread.join()
+            
+            out = getattr(self, "_render_%s" % self.style)(active=False)
+            out = "%s%s%s\n" % (self.message, out, 'Done  ' if success else 'Failed')
+            sys.stdout.write(out)
+            
+            self.thread = None
+            self._i = 0
+            self._dir = 1
         
     def _pprint(self):
         t = time.time() - self.t0
-- 
2.43.0


From 297eb48ae08f366201e36b82da772f28f482fcff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:55:24 +0000
Subject: [PATCH 041/185] fix: keep progress bars within their width

---
 lsl/common/progress.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lsl/common/progress.py b/lsl/common/progress.py
index 68747b5..267caf3 100644
--- a/lsl/common/progress.py
+++ b/lsl/common/progress.py
@@ -73,7 +73,7 @@ class ProgressBar(object):
             # more from the progress bar's wdith
             barSpan = self.span - 9
             nMarks = float(self.amount)/self.max * barSpan
-            nMarksFull = int(nMarks)
+            nMarksFull = min([int(nMarks), barSpan])
             if nMarksFull < barSpan:
                 partial = nMarks - nMarksFull
                 lastMark = self.rotations[int(partial*len(self.rotations))]
@@ -92,7 +92,7 @@ class ProgressBar(object):
             # Progress bar only
             barSpan = self.span - 2
             nMarks = float(self.amount)/self.max * barSpan
-            nMarksFull = int(nMarks)
+            nMarksFull = min([int(nMarks), barSpan])
             if nMarksFull < barSpan:
                 partial = nMarks - nMarksFull
                 lastMark = self.rotations[int(partial*len(self.rotations))]
@@ -247,7 +247,7 @@ class ProgressBarPlus(ProgressBar):
             # more from the progress bar's wdith
             barSpan = self.span - 9
             nMarks = float(self.amount)/self.max * barSpan
-            nMarksFull = int(nMarks)
+            nMarksFull = min([int(nMarks), barSpan])
             if nMarksFull < barSpan:
                 partial = nMarks - nMarksFull
                 lastMark = self.rotations[int(partial*len(self.rotations))]
@@ -370,7 +370,7 @@ class DownloadBar(ProgressBarPlus):
             # Progress bar only
             barSpan = self.span - 3
             nMarks = float(self.amount)/self.max * barSpan
-            nMarksFull = int(nMarks)
+            nMarksFull = min([int(nMarks), barSpan])
             if nMarksFull < barSpan:
                 partial = nMarks - nMarksFull
                 lastMark = self.rotations[int(partial*len(self.rotations))]
-- 
2.43.0


From 8f56bc0b68c033b813a12ac8276b9a4e9a597843 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:28:08 +0000
Subject: [PATCH 042/185] fix: accept astropy times in parse_time

---
 lsl/common/_sdf_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lsl/common/_sdf_utils.py b/lsl/common/_sdf_utils.py
index 2a2caff..5ee4f36 100644
--- a/lsl/common/_sdf_utils.py
+++ b/lsl/common/_sdf_utils.py
@@ -113,7 +113,7 @@ def parse_time(s, station=lwa1):
     """
     
     if isinstance(s, AstroTime):
-        s = s.utc.datetime
+        s = s.utc.datetime.replace(tzinfo=timezone.utc)
         
     if isinstance(s, datetime):
         if s.tzinfo is None:
-- 
2.43.0


From 1be139316bf09ee6bc604c9abd6a4a0fea63c0cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:28:08 +0000
Subject: [PATCH 043/185] fix: carry milliseconds that round up to a full
 second in parse_time

---
 lsl/common/_sdf_utils.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/lsl/common/_sdf_utils.py b/lsl/common/_sdf_utils.py
index 5ee4f36..97db8f0 100644
--- a/lsl/common/_sdf_utils.py
+++ b/lsl/common/_sdf_utils.py
@@ -122,7 +122,7 @@ def parse_time(s, station=lwa1):
         # Round the microsecond value to milliseconds
         us = s.microsecond
         us = int(round(us/1000.0))*1000
-        dtObject = s.replace(microsecond=us)
+        dtObject = s.astimezone(timezone.utc).replace(microsecond=0) + timedelta(microseconds=us)
         
     else:
         mtch = _dtRE.match(s)
@@ -273,7 +273,10 @@ def parse_time(s, station=lwa1):
                 microsecond = int(round(microsecond/1000.0))*1000
                 
             # Localize as the appropriate time zone
-            dtObject = datetime(year, month, day, hour, minute, second, microsecond, tzinfo=tz)
+            dtObject = datetime(year, month, day, hour, minute, second, tzinfo=tz)
+            
+            # Add in the milliseconds, which can have rounded up to a full second
+            dtObject = dtObject.astimezone(timezone.utc) + timedelta(microseconds=microsecond)
             
     # Return as UTC
     return dtObject.astimezone(timezone.utc)
-- 
2.43.0


From a730605377249226f2409a92b651b2ced5d78e35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:28:08 +0000
Subject: [PATCH 044/185] fix: read time zone offsets with a one digit hour in
 parse_time

---
 lsl/common/_sdf_utils.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/lsl/common/_sdf_utils.py b/lsl/common/_sdf_utils.py
index 97db8f0..2290182 100644
--- a/lsl/common/_sdf_utils.py
+++ b/lsl/common/_sdf_utils.py
@@ -175,8 +175,12 @@ def parse_time(s, station=lwa1):
                 tzOffsetSign = 1
                 if mtch.group('tzOffset')[0] == '-':
                     tzOffsetSign = -1
-                tzOffsetHours = int( mtch.group('tzOffset').replace(':', '')[1:3] )
-                tzOffsetMinutes = int( mtch.group('tzOffset').replace(':', '')[3:5] )
+                tzOffset = mtch.group('tzOffset')[1:]
+                if tzOffset.find(':') != -1:
+                    tzOffsetHours, tzOffsetMinutes = [int(v, 10) for v in tzOffset.split(':')]
+                else:
+                    tzOffsetHours = int(tzOffset[:2], 10)
+                    tzOffsetMinutes = int(tzOffset[2:4], 10)
                 
                 tzOffsetSeconds = tzOffsetHours*3600 + tzOffsetMinutes*60
                 tzOffsetSeconds *= tzOffsetSign
-- 
2.43.0


From ee3a8a06c0add530873776c7277bf675ca6d1059 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:29:47 +0000
Subject: [PATCH 045/185] fix: keep the settings of one observation or step out
 of the next in parse_sdf

---
 lsl/common/sdf.py | 31 ++++++++++++++++---------------
 1 file changed, 16 insertions(+), 15 deletions(-)

diff --git a/lsl/common/sdf.py b/lsl/common/sdf.py
index 590c747..dc9ddba 100644
--- a/lsl/common/sdf.py
+++ b/lsl/common/sdf.py
@@ -2141,12 +2141,13 @@ def parse_sdf(filename):
     project.project_office.sessions = []
     project.project_office.observations = [[],]
     
-    obs_temp = {'id': 0, 'name': '', 'target': '', 'ra': 0.0, 'dec': 0.0, 'start': '', 'duration': '', 'mode': '', 
-                'beamDipole': None, 'freq1': 0, 'freq2': 0, 'filter': 0, 'HighDR': False, 'comments': None, 
-                'stpRADec': True, 'tbtSamples': 0, 'gain': -1, 
-                'obsFEE': [[-1,-1] for n in range(LWA_MAX_NSTD)], 
-                'aspFlt': [-1 for n in range(LWA_MAX_NSTD)], 'aspAT1': [-1 for n in range(LWA_MAX_NSTD)], 
-                'aspAT2': [-1 for n in range(LWA_MAX_NSTD)], 'aspAT3': [-1 for n in range(LWA_MAX_NSTD)]}
+    obs_default = {'id': 0, 'name': '', 'target': '', 'ra': 0.0, 'dec': 0.0, 'start': '', 'duration': '', 'mode': '', 
+                   'beamDipole': None, 'freq1': 0, 'freq2': 0, 'filter': 0, 'HighDR': False, 'comments': None, 
+                   'stpRADec': True, 'tbtSamples': 0, 'gain': -1, 
+                   'obsFEE': [[-1,-1] for n in range(LWA_MAX_NSTD)], 
+                   'aspFlt': [-1 for n in range(LWA_MAX_NSTD)], 'aspAT1': [-1 for n in range(LWA_MAX_NSTD)], 
+                   'aspAT2': [-1 for n in range(LWA_MAX_NSTD)], 'aspAT3': [-1 for n in range(LWA_MAX_NSTD)]}
+    obs_temp = copy.deepcopy(obs_default)
     beam_temp = {'id': 0, 'c1': 0.0, 'c2': 0.0, 'duration': 0, 'freq1': 0, 'freq2': 0, 'HighDR': False, 'delays': None, 'gains': None}
     beam_temps = []
     
@@ -2285,7 +2286,7 @@ def parse_sdf(filename):
             if keyword == 'OBS_ID':
                 if obs_temp['id'] != 0:
                     project.sessions[0].observations.append( _parse_create_obs_object(obs_temp, beam_temps=beam_temps) )
-                    beam_temp = {'id': 0, 'c1': 0.0, 'c2': 0.0, 'duration': 0, 'freq1': 0, 'freq2': 0, 'HighDR': False, 'delays': None, 'gains': None}
+                    obs_temp = copy.deepcopy(obs_default)
                     beam_temps = []
                 obs_temp['id'] = int(value)
                 project.project_office.observations[0].append( None )
@@ -2358,7 +2359,7 @@ def parse_sdf(filename):
                     beam_temps[-1]['c1'] = float(value)
                 else:
                     if beam_temps[-1]['id'] != ids[0]:
-                        beam_temps.append( copy.deepcopy(beam_temps[-1]) )
+                        beam_temps.append( copy.deepcopy(beam_temp) )
                         beam_temps[-1]['id'] = ids[0]
                     beam_temps[-1]['c1'] = float(value)
                 continue
@@ -2370,7 +2371,7 @@ def parse_sdf(filename):
                     beam_temps[-1]['c2'] = float(value)
                 else:
                     if beam_temps[-1]['id'] != ids[0]:
-                        beam_temps.append( copy.deepcopy(beam_temps[-1]) )
+                        beam_temps.append( copy.deepcopy(beam_temp) )
                         beam_temps[-1]['id'] = ids[0]
                     beam_temps[-1]['c2'] = float(value)
                 continue
@@ -2382,7 +2383,7 @@ def parse_sdf(filename):
                     beam_temps[-1]['duration'] = int(value)
                 else:
                     if beam_temps[-1]['id'] != ids[0]:
-                        beam_temps.append( copy.deepcopy(beam_temps[-1]) )
+                        beam_temps.append( copy.deepcopy(beam_temp) )
                         beam_temps[-1]['id'] = ids[0]
                     beam_temps[-1]['duration'] = int(value)
                 continue
@@ -2394,7 +2395,7 @@ def parse_sdf(filename):
                     beam_temps[-1]['freq1'] = int(value)
                 else:
                     if beam_temps[-1]['id'] != ids[0]:
-                        beam_temps.append( copy.deepcopy(beam_temps[-1]) )
+                        beam_temps.append( copy.deepcopy(beam_temp) )
                         beam_temps[-1]['id'] = ids[0]
                     beam_temps[-1]['freq1'] = int(value)
                 continue
@@ -2406,7 +2407,7 @@ def parse_sdf(filename):
                     beam_temps[-1]['freq2'] = int(value)
                 else:
                     if beam_temps[-1]['id'] != ids[0]:
-                        beam_temps.append( copy.deepcopy(beam_temps[-1]) )
+                        beam_temps.append( copy.deepcopy(beam_temp) )
                         beam_temps[-1]['id'] = ids[0]
                     beam_temps[-1]['freq2'] = int(value)
                 continue
@@ -2431,7 +2432,7 @@ def parse_sdf(filename):
                         beam_temps[-1]['HighDR'] = False
                 else:
                     if beam_temps[-1]['id'] != ids[0]:
-                        beam_temps.append( copy.deepcopy(beam_temps[-1]) )
+                        beam_temps.append( copy.deepcopy(beam_temp) )
                         beam_temps[-1]['id'] = ids[0]
                     
                     if value in ('HIGH_DR', '2'):
@@ -2459,7 +2460,7 @@ def parse_sdf(filename):
                         raise RuntimeError("Invalid index encountered when parsing OBS_BEAM_DELAY")
                 else:
                     if beam_temps[-1]['id'] != ids[0]:
-                        beam_temps.append( copy.deepcopy(beam_temps[-1]) )
+                        beam_temps.append( copy.deepcopy(beam_temp) )
                         beam_temps[-1]['id'] = ids[0]
                     try:
                         beam_temps[-1]['delays'][ids[1]-1] = int(value)
@@ -2477,7 +2478,7 @@ def parse_sdf(filename):
                         pass
                 else:
                     if beam_temps[-1]['id'] != ids[0]:
-                        beam_temps.append( copy.deepcopy(beam_temps[-1]) )
+                        beam_temps.append( copy.deepcopy(beam_temp) )
                         beam_temps[-1]['id'] = ids[0]
                     try:
                         beam_temps[-1]['gains'][ids[1]-1][ids[2]-1][ids[3]-1] = int(value)
-- 
2.43.0


From 3d35b42c826b5f3c146720e1bfdde754923b14d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:29:47 +0000
Subject: [PATCH 046/185] fix: read a session flag of 0 as off in parse_sdf

---
 lsl/common/sdf.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lsl/common/sdf.py b/lsl/common/sdf.py
index dc9ddba..b91bc24 100644
--- a/lsl/common/sdf.py
+++ b/lsl/common/sdf.py
@@ -2248,16 +2248,16 @@ def parse_sdf(filename):
                 project.sessions[0].update_mib[component] = int(value)
                 continue
             if keyword == 'SESSION_LOG_SCH':
-                project.sessions[0].include_mcssch_log = bool(value)
+                project.sessions[0].include_mcssch_log = bool(int(value))
                 continue
             if keyword == 'SESSION_LOG_EXE':
-                project.sessions[0].include_mcsexe_log = bool(value)
+                project.sessions[0].include_mcsexe_log = bool(int(value))
                 continue
             if keyword == 'SESSION_INC_SMIB':
-                project.sessions[0].include_station_smib = bool(value)
+                project.sessions[0].include_station_smib = bool(int(value))
                 continue
             if keyword == 'SESSION_INC_DES':
-                project.sessions[0].include_station_design = bool(value)
+                project.sessions[0].include_station_design = bool(int(value))
                 continue
             if keyword == 'SESSION_DRX_BEAM':
                 project.sessions[0].drx_beam = int(value)
-- 
2.43.0


From fe4090daebd3b1e61f17d31d30d78558fae5f609 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:29:47 +0000
Subject: [PATCH 047/185] fix: keep the typed session list on projects from
 parse_sdf

---
 lsl/common/sdf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lsl/common/sdf.py b/lsl/common/sdf.py
index b91bc24..046819f 100644
--- a/lsl/common/sdf.py
+++ b/lsl/common/sdf.py
@@ -2137,7 +2137,7 @@ def parse_sdf(filename):
     observer = Observer('observer_name', 0)
     project = Project(observer, 'project_name', 'project_id', project_office=po)
     session = Session('session_name', 0, observations=[])
-    project.sessions = [session,]
+    project.sessions.append(session)
     project.project_office.sessions = []
     project.project_office.observations = [[],]
     
-- 
2.43.0


From 3e9d045e2722b3bb0d3c6da6a98dd3dd7957cde0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:29:47 +0000
Subject: [PATCH 048/185] fix: render SDFs without changing the project or
 growing its comments

---
 lsl/common/sdf.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/lsl/common/sdf.py b/lsl/common/sdf.py
index 046819f..4c33fc8 100644
--- a/lsl/common/sdf.py
+++ b/lsl/common/sdf.py
@@ -294,7 +294,7 @@ class Project(object):
             pos = None
         try:
             # Try to pull out the project office comments about the observations
-            poo = self.project_office.observations[session]
+            poo = list(self.project_office.observations[session])
         except (TypeError, IndexError):
             poo = []
         # Enforce that the number of project office observation comments match the
@@ -304,14 +304,17 @@ class Project(object):
             
         # Combine the session comments together in an intelligent fashion
         ## Observer comments
+        comments = ses.comments
         if ses.ucf_username is not None:
             clean = ''
             if ses.comments:
-                clean = UCF_USERNAME_RE.sub('', ses.comments)
-            ses.comments = f"ucfuser:{ses.ucf_username}"
+                clean = re.sub(rf"{UCF_USERNAME_RE.pattern}(;;)?", '', ses.comments)
+            comments = f"ucfuser:{ses.ucf_username}"
             if len(clean) > 0:
-                ses.comments += ';;%s' % clean
+                comments += ';;%s' % clean
         ## Project office comments, including the data return method
+        if pos == '':
+            pos = None
         if pos != 'None' and pos is not None:
             pos = f"Requested data return method is {ses.dataReturnMethod};;{pos}"
             
@@ -331,7 +334,7 @@ class Project(object):
         ## Session Information
         output += "SESSION_ID       %s\n" % (ses.id,)
         output += "SESSION_TITLE    %s\n" % ('None provided' if ses.name is None else ses.name,)
-        output += "SESSION_REMPI    %s\n" % (ses.comments[:4090] if ses.comments else 'None provided',)
+        output += "SESSION_REMPI    %s\n" % (comments[:4090] if comments else 'None provided',)
         output += "SESSION_REMPO    %s\n" % (f"Requested data return method is {ses.dataReturnMethod}" if pos == 'None' or pos is None else pos,)
         if ses.configuration_authority != 0:
             output += "SESSION_CRA      %i\n" % (ses.configuration_authority,)
-- 
2.43.0


From cbc5c3319e84d281320190e55f8080ca54599a68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:29:47 +0000
Subject: [PATCH 049/185] fix: write FEE settings that apply to a single
 polarization of every stand

---
 lsl/common/sdf.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lsl/common/sdf.py b/lsl/common/sdf.py
index 4c33fc8..e51a9ec 100644
--- a/lsl/common/sdf.py
+++ b/lsl/common/sdf.py
@@ -445,8 +445,9 @@ class Project(object):
             ## FEE power settings
             if all(j == obs.fee_power[0] for j in obs.fee_power):
                 ### All the same
-                if obs.fee_power[0][0] != -1 and obs.fee_power[0][1] != -1:
+                if obs.fee_power[0][0] != -1:
                     output += "OBS_FEE[%i][1]  %i\n" % (0, obs.fee_power[0][0])
+                if obs.fee_power[0][1] != -1:
                     output += "OBS_FEE[%i][2]  %i\n" % (0, obs.fee_power[0][1])
             else:
                 ### Some different
-- 
2.43.0


From 6b1d8d1fd9346d7f768143c9d1895dfb8c906b55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:30:22 +0000
Subject: [PATCH 050/185] fix: accept durations as astropy quantities

---
 lsl/common/idf.py | 2 +-
 lsl/common/sdf.py | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/lsl/common/idf.py b/lsl/common/idf.py
index 22c6661..b9fb6a2 100644
--- a/lsl/common/idf.py
+++ b/lsl/common/idf.py
@@ -710,7 +710,7 @@ class Scan(object):
             seconds = seconds + ms
             
         elif isinstance(value, astrounits.quantity.Quantity):
-            seconds = seconds.to('s').value
+            seconds = value.to('s').value
             
         else:
             seconds = value
diff --git a/lsl/common/sdf.py b/lsl/common/sdf.py
index e51a9ec..6cdabbe 100644
--- a/lsl/common/sdf.py
+++ b/lsl/common/sdf.py
@@ -633,7 +633,7 @@ class Observation(object):
             seconds = seconds + ms
             
         elif isinstance(value, astrounits.quantity.Quantity):
-            seconds = seconds.to('s').value
+            seconds = value.to('s').value
             
         else:
             seconds = value
@@ -1631,7 +1631,7 @@ class BeamStep(object):
             seconds = seconds + ms
             
         elif isinstance(value, astrounits.quantity.Quantity):
-            seconds = seconds.to('s').value
+            seconds = value.to('s').value
             
         else:
             seconds = value
-- 
2.43.0


From df170408bd66aab17902163612624f5ae0876eca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:30:22 +0000
Subject: [PATCH 051/185] fix: accept astropy angles and frequencies when
 creating observations, steps, and scans

---
 lsl/common/idf.py |  4 ++--
 lsl/common/sdf.py | 16 ++++++----------
 2 files changed, 8 insertions(+), 12 deletions(-)

diff --git a/lsl/common/idf.py b/lsl/common/idf.py
index b9fb6a2..65e7338 100644
--- a/lsl/common/idf.py
+++ b/lsl/common/idf.py
@@ -613,8 +613,8 @@ class Scan(object):
         self.duration = duration
         self.mode = mode
         self.beamDipole = None
-        self.frequency1 = float(frequency1)
-        self.frequency2 = float(frequency2)
+        self.frequency1 = frequency1
+        self.frequency2 = frequency2
         self.filter = int(filter)
         self.comments = comments
         
diff --git a/lsl/common/sdf.py b/lsl/common/sdf.py
index 6cdabbe..edf53d9 100644
--- a/lsl/common/sdf.py
+++ b/lsl/common/sdf.py
@@ -554,8 +554,8 @@ class Observation(object):
         self.duration = duration
         self.mode = mode
         self.beamDipole = None
-        self.frequency1 = float(frequency1)
-        self.frequency2 = float(frequency2)
+        self.frequency1 = frequency1
+        self.frequency2 = frequency2
         self.filter = int(filter)
         self.high_dr = bool(high_dr)
         self.comments = comments
@@ -1514,19 +1514,15 @@ class BeamStep(object):
     
     def __init__(self, c1, c2, duration, frequency1, frequency2, is_radec=True, high_dr=False, spec_delays=None, spec_gains=None):
         self.is_radec = bool(is_radec)
-        if self.is_radec:
-            convFactor = 12.0/math.pi
-        else:
-            convFactor = 180.0/math.pi
-        self.c1 = float(c1) * (convFactor if type(c1).__name__ == 'Angle' else 1.0)
-        self.c2 = float(c2) * (180.0/math.pi if type(c2).__name__ == 'Angle' else 1.0)
+        self.c1 = c1
+        self.c2 = c2
         if isinstance(duration, timedelta):
             # Make sure the number of microseconds agree with milliseconds
             us = int(round(duration.microseconds/1000.0))*1000
             duration = timedelta(days=duration.days, seconds=duration.seconds, microseconds=us)
         self.duration = duration
-        self.frequency1 = float(frequency1)
-        self.frequency2 = float(frequency2)
+        self.frequency1 = frequency1
+        self.frequency2 = frequency2
         self.high_dr = bool(high_dr)
         self.delays = spec_delays
         self.gains = spec_gains
-- 
2.43.0


From 646f8d5bbc84c50291f29d5ba15899aa7044b5db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:30:22 +0000
Subject: [PATCH 052/185] fix: report an invalid declination as a ValueError

---
 lsl/common/sdf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lsl/common/sdf.py b/lsl/common/sdf.py
index edf53d9..d1216e5 100644
--- a/lsl/common/sdf.py
+++ b/lsl/common/sdf.py
@@ -673,7 +673,7 @@ class Observation(object):
         elif isinstance(value, str):
             value = AstroAngle(value).to('deg').value
         if value < -90.0 or value > 90.0:
-            raise ValueError(f"Invalid value for dec. '{dec:+.6f}' deg")
+            raise ValueError(f"Invalid value for dec. '{value:+.6f}' deg")
         self._dec = value
         
     @property
-- 
2.43.0


From 08269a124c1b85e88c8899f3bb247a998add7b1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:30:22 +0000
Subject: [PATCH 053/185] fix: create auto-filled projects

---
 lsl/common/sdf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lsl/common/sdf.py b/lsl/common/sdf.py
index d1216e5..3ba2ed1 100644
--- a/lsl/common/sdf.py
+++ b/lsl/common/sdf.py
@@ -232,7 +232,7 @@ class Project(object):
         id = OBSV_CONFIG.get('project_id')
         if name is None or id is None:
             raise RuntimeError("Auto-fill values for the project cannot be loaded from the configuration file")
-        return cls(observer, name, id, sessions=session, comments=comments, project_office=project_office)
+        return cls(observer, name, id, sessions=sessions, comments=comments, project_office=project_office)
         
     def update(self):
         """Update the various sessions that are part of this project."""
-- 
2.43.0


From c15370bb7054a38ad5de9b165df002f687040460 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:31:29 +0000
Subject: [PATCH 054/185] fix: keep the settings of one scan or phase center
 out of the next in parse_idf

---
 lsl/common/idf.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/lsl/common/idf.py b/lsl/common/idf.py
index 65e7338..e32ead7 100644
--- a/lsl/common/idf.py
+++ b/lsl/common/idf.py
@@ -1267,9 +1267,10 @@ def parse_idf(filename):
     project.project_office.runs = []
     project.project_office.scans = [[],]
     
-    obs_temp = {'id': 0, 'target': '', 'intent': '', 'ra': 0.0, 'dec': 0.0, 'pm':[0.0, 0.0], 'start': '', 'duration': '', 'mode': '', 
-                'freq1': 0, 'freq2': 0, 'filter': 0, 'comments': None, 'nAlt': 0, 'gain': -1, 
-                'aspFlt': -1}
+    obs_default = {'id': 0, 'target': '', 'intent': '', 'ra': 0.0, 'dec': 0.0, 'pm':[0.0, 0.0], 'start': '', 'duration': '', 'mode': '', 
+                   'freq1': 0, 'freq2': 0, 'filter': 0, 'comments': None, 'nAlt': 0, 'gain': -1, 
+                   'aspFlt': -1}
+    obs_temp = copy.deepcopy(obs_default)
     alt_temp = {'id': 0, 'target': '', 'intent': '', 'ra': 0.0, 'dec': 0.0, 'pm':[0.0, 0.0]}
     alt_temps = []
     
@@ -1388,7 +1389,7 @@ def parse_idf(filename):
             if keyword == 'SCAN_ID':
                 if obs_temp['id'] != 0:
                     project.runs[0].scans.append( _parse_create_scan_object(obs_temp, alt_temps=alt_temps) )
-                    alt_temp = {'id': 0, 'target': '', 'intent': '', 'ra': 0.0, 'dec': 0.0, 'pm':[0.0, 0.0]}
+                    obs_temp = copy.deepcopy(obs_default)
                     alt_temps = []
                 obs_temp['id'] = int(value)
                 project.project_office.scans[0].append( None )
@@ -1453,7 +1454,7 @@ def parse_idf(filename):
                     alt_temps[-1]['target'] = value
                 else:
                     if alt_temps[-1]['id'] != ids[0]:
-                        alt_temps.append( copy.deepcopy(alt_temps[-1]) )
+                        alt_temps.append( copy.deepcopy(alt_temp) )
                         alt_temps[-1]['id'] = ids[0]
                     alt_temps[-1]['target'] = value
                 continue
-- 
2.43.0


From 51b6e884257d2863d30832cff05a92d46ddac58c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:31:29 +0000
Subject: [PATCH 055/185] fix: keep the typed run list on projects from
 parse_idf

---
 lsl/common/idf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lsl/common/idf.py b/lsl/common/idf.py
index e32ead7..14ddd24 100644
--- a/lsl/common/idf.py
+++ b/lsl/common/idf.py
@@ -1263,7 +1263,7 @@ def parse_idf(filename):
     observer = Observer('observer_name', 0)
     project = Project(observer, 'project_name', 'project_id', project_office=po)
     run = Run('run_name', 0, scans=[])
-    project.runs = [run,]
+    project.runs.append(run)
     project.project_office.runs = []
     project.project_office.scans = [[],]
     
-- 
2.43.0


From fae6b3a7f4a01050e8fac08f86a425a39fbe8c67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:31:29 +0000
Subject: [PATCH 056/185] fix: render IDFs without changing the project or
 growing its comments

---
 lsl/common/idf.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/lsl/common/idf.py b/lsl/common/idf.py
index 14ddd24..39ca67f 100644
--- a/lsl/common/idf.py
+++ b/lsl/common/idf.py
@@ -180,7 +180,7 @@ class Project(object):
             pos = None
         try:
             # Try to pull out the project office comments about the scans
-            poo = self.project_office.scans[run]
+            poo = list(self.project_office.scans[run])
         except (TypeError, IndexError):
             poo = []
         # Enforce that the number of project office scan comments match the
@@ -190,14 +190,17 @@ class Project(object):
             
         # Combine the run comments together in an intelligent fashion
         ## Observer comments
+        comments = ses.comments
         if ses.ucf_username is not None:
             clean = ''
             if ses.comments:
-                clean = UCF_USERNAME_RE.sub('', ses.comments)
-            ses.comments = f"ucfuser:{ses.ucf_username}"
+                clean = re.sub(rf"{UCF_USERNAME_RE.pattern}(;;)?", '', ses.comments)
+            comments = f"ucfuser:{ses.ucf_username}"
             if len(clean) > 0:
-                ses.comments += ';;%s' % clean
+                comments += ';;%s' % clean
         ## Project office comments, including the data return method
+        if pos == '':
+            pos = None
         if pos != 'None' and pos is not None:
             pos = f"Requested data return method is {ses.dataReturnMethod};;{pos}"
             
@@ -221,7 +224,7 @@ class Project(object):
         output += "RUN_CHANNELS     %i\n" % (ses.correlator_channels,)
         output += "RUN_INTTIME      %.3f\n" % (ses.correlator_inttime,)
         output += "RUN_BASIS        %s\n" % (ses.correlator_basis,)
-        output += "RUN_REMPI        %s\n" % (ses.comments[:4090] if ses.comments else 'None provided',)
+        output += "RUN_REMPI        %s\n" % (comments[:4090] if comments else 'None provided',)
         output += "RUN_REMPO        %s\n" % (f"Requested data return method is {ses.dataReturnMethod}" if pos == 'None' or pos is None else pos[:4090],)
         output += "\n"
                     
@@ -1365,7 +1368,7 @@ def parse_idf(filename):
                     project.runs[0].ucf_username = mtch.group('username')
                     if mtch.group('subdir') is not None:
                         project.runs[0].ucf_username = os.path.join(project.runs[0].ucf_username, mtch.group('subdir'))
-                project.runs[0].comments = UCF_USERNAME_RE.sub('', value)
+                project.runs[0].comments = re.sub(rf"{UCF_USERNAME_RE.pattern}(;;)?", '', value)
                 continue
             if keyword == 'RUN_REMPO':
                 project.project_office.runs.append(None)
-- 
2.43.0


From b0d7edf08e5e8277b1d97ebe7bbb02e576f8736e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:31:29 +0000
Subject: [PATCH 057/185] fix: generate SDFs for scans without comments

---
 lsl/common/idf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lsl/common/idf.py b/lsl/common/idf.py
index 39ca67f..7b132af 100644
--- a/lsl/common/idf.py
+++ b/lsl/common/idf.py
@@ -329,7 +329,7 @@ class Project(object):
                     ra = obs.ra + delta_epoch * obs.pm[0]/math.cos(obs.dec*math.pi/180)/1000.0/3600.0/15.0
                     dec = obs.dec + delta_epoch * obs.pm[1]/1000.0/3600.0
                     comments = ''
-                    if comments is not None:
+                    if obs.comments is not None:
                         comments += obs.comments
                     if obs.pm[0] != 0.0 or obs.pm[1] != 0.0:
                         comments = comments+";;Applied proper motion of %+.1f mas/yr in RA and %+.1f mas/yr in dec" % (obs.pm[0], obs.pm[1])
-- 
2.43.0


From c9cc045a9eddf78903360cf73c068f68b71777f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:31:29 +0000
Subject: [PATCH 058/185] fix: generate SDFs for runs without project office
 comments

---
 lsl/common/idf.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/lsl/common/idf.py b/lsl/common/idf.py
index 7b132af..28bc904 100644
--- a/lsl/common/idf.py
+++ b/lsl/common/idf.py
@@ -316,9 +316,19 @@ class Project(object):
             session.include_station_smib = True
             
             ## Project Office
+            try:
+                pos = self.project_office.runs[run]
+            except (TypeError, IndexError):
+                pos = None
+            try:
+                poo = list(self.project_office.scans[run])
+            except (TypeError, IndexError):
+                poo = []
+            while len(poo) < len(ses.scans):
+                poo.append(None)
             new_projoff = sdf.ProjectOffice(project=copy.deepcopy(self.project_office.project), 
-                                               sessions=copy.deepcopy([self.project_office.runs[run],]), 
-                                               observations=copy.deepcopy([self.project_office.scans[run],]))
+                                               sessions=[pos,], 
+                                               observations=[poo,])
             
             ## Observations
             for o,obs in enumerate(ses.scans):
@@ -361,10 +371,6 @@ class Project(object):
                     alt_r = alt_r + delta_epoch * alt_pr/math.cos(alt_d*math.pi/180)/1000.0/3600.0/15.0
                     alt_d = alt_d + delta_epoch * alt_pd/1000.0/3600.0
                     
-                    try:
-                        new_projoff.observations[0][o]
-                    except IndexError:
-                        new_projoff.observations[0][o] = None
                     if new_projoff.observations[0][o] is None:
                         new_projoff.observations[0][o] = ''
                     new_projoff.observations[0][o] = "alttarget%i:%s;;altintent%i:%s;;altra%i:%.9f;;altdec%i:%+.9f;;%s" % (cid, alt_t, cid, alt_i, cid, alt_r, cid, alt_d, new_projoff.observations[0][o])
-- 
2.43.0


From cb57594eb375379813f7e0ca82813f49cffd5279 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:31:29 +0000
Subject: [PATCH 059/185] fix: carry the ASP filter of a scan over to the
 generated SDFs

---
 lsl/common/idf.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lsl/common/idf.py b/lsl/common/idf.py
index 28bc904..fa3df58 100644
--- a/lsl/common/idf.py
+++ b/lsl/common/idf.py
@@ -358,6 +358,8 @@ class Project(object):
                                             gain=obs.gain, high_dr=False, comments=obs.comments)
                 else:
                     raise RuntimeError("This should never happen")
+                if obs.asp_filter != -1:
+                    new_obs.asp_filter = [obs.asp_filter for f in new_obs.asp_filter]
                 session.append(new_obs)
                 
                 npc = len(obs.alt_phase_centers)
-- 
2.43.0


From 35dbc14bca56b7de13365dd3a47a86b8f2f20b80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:31:29 +0000
Subject: [PATCH 060/185] fix: wrap right ascensions moved past 0 hr by their
 proper motion

---
 lsl/common/idf.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lsl/common/idf.py b/lsl/common/idf.py
index fa3df58..aaa66d3 100644
--- a/lsl/common/idf.py
+++ b/lsl/common/idf.py
@@ -336,7 +336,7 @@ class Project(object):
                 if isinstance(obs, DRX):
                     ### Apply the proper motion to generate the SDFs
                     delta_epoch = (obs.mjd + obs.mpm/1000.0/86400.0 - 51544.5) / 365.25
-                    ra = obs.ra + delta_epoch * obs.pm[0]/math.cos(obs.dec*math.pi/180)/1000.0/3600.0/15.0
+                    ra = (obs.ra + delta_epoch * obs.pm[0]/math.cos(obs.dec*math.pi/180)/1000.0/3600.0/15.0) % 24.0
                     dec = obs.dec + delta_epoch * obs.pm[1]/1000.0/3600.0
                     comments = ''
                     if obs.comments is not None:
@@ -370,7 +370,7 @@ class Project(object):
                     
                     ### Apply the proper motion to generate the SDFs
                     delta_epoch = (obs.mjd + obs.mpm/1000.0/86400.0 - 51544.5) / 365.25
-                    alt_r = alt_r + delta_epoch * alt_pr/math.cos(alt_d*math.pi/180)/1000.0/3600.0/15.0
+                    alt_r = (alt_r + delta_epoch * alt_pr/math.cos(alt_d*math.pi/180)/1000.0/3600.0/15.0) % 24.0
                     alt_d = alt_d + delta_epoch * alt_pd/1000.0/3600.0
                     
                     if new_projoff.observations[0][o] is None:
-- 
2.43.0


From acaa97803662047cbe3b0510f2fc6d752fcfa841 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:32:26 +0000
Subject: [PATCH 061/185] fix: validate steps and phase centers that are not
 part of an observation

---
 lsl/common/idf.py | 2 ++
 lsl/common/sdf.py | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/lsl/common/idf.py b/lsl/common/idf.py
index aaa66d3..590a78c 100644
--- a/lsl/common/idf.py
+++ b/lsl/common/idf.py
@@ -1048,6 +1048,8 @@ class Jovian(Scan):
 class AlternatePhaseCenter(object):
     """Class to hold an alternate phase center for a scan."""
     
+    _parent = None
+    
     def __init__(self, target, intent, ra, dec, pm=[0.0, 0.0]):
         self.target = target
         self.intent = intent
diff --git a/lsl/common/sdf.py b/lsl/common/sdf.py
index 3ba2ed1..775a222 100644
--- a/lsl/common/sdf.py
+++ b/lsl/common/sdf.py
@@ -1512,6 +1512,8 @@ class BeamStep(object):
         instances
     """
     
+    _parent = None
+    
     def __init__(self, c1, c2, duration, frequency1, frequency2, is_radec=True, high_dr=False, spec_delays=None, spec_gains=None):
         self.is_radec = bool(is_radec)
         self.c1 = c1
-- 
2.43.0


From 60bf30d3bd6b9b790681c8fbaad9f6048ce327d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:32:26 +0000
Subject: [PATCH 062/185] fix: check the visibility of a step for the duration
 of that step

---
 lsl/common/sdf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lsl/common/sdf.py b/lsl/common/sdf.py
index 775a222..11b19ff 100644
--- a/lsl/common/sdf.py
+++ b/lsl/common/sdf.py
@@ -1411,7 +1411,7 @@ class Stepped(Observation):
                 pnt = step.fixed_body
                 
                 dt = 0.0
-                while dt <= self.dur/1000.0:
+                while dt <= step.dur/1000.0:
                     station.date = self.mjd + (relStart/1000.0 + self.mpm/1000.0 + dt)/3600/24.0 + MJD_OFFSET - DJD_OFFSET
                     pnt.compute(station)
                     max_alt = max([max_alt, pnt.alt])
-- 
2.43.0


From 9ac41eee01debdd5074a0595491472f8bed7a8eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:32:26 +0000
Subject: [PATCH 063/185] fix: allow MAX_STP_N steps and refuse stepped
 observations without any

---
 lsl/common/sdf.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/lsl/common/sdf.py b/lsl/common/sdf.py
index 11b19ff..ff43c61 100644
--- a/lsl/common/sdf.py
+++ b/lsl/common/sdf.py
@@ -1460,12 +1460,15 @@ class Stepped(Observation):
                 
             stepCount += 1
             
-        if stepCount > MAX_STP_N:
-            LSL_LOGGER.error(f"Too many steps ({stepCount}) set for this observation")
+        if len(self.steps) > MAX_STP_N:
+            LSL_LOGGER.error(f"Too many steps ({len(self.steps)}) set for this observation")
+            failures += 1
+        if len(self.steps) == 0:
+            LSL_LOGGER.error("No steps set for this observation")
             failures += 1
             
         # Advanced - Target Visibility
-        if self.target_visibility < 1.0:
+        if len(self.steps) > 0 and self.target_visibility < 1.0:
             LSL_LOGGER.error(f"Target steps only above the horizon for {self.target_visibility*100.0:.1f}% of the observation")
             failures += 1
             
-- 
2.43.0


From eb7819b5d96eae3a90d7f496a9787a9102538af9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:32:26 +0000
Subject: [PATCH 064/185] fix: refuse observations and sessions of the wrong
 type instead of dropping them

---
 lsl/common/sdf.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lsl/common/sdf.py b/lsl/common/sdf.py
index ff43c61..93881dc 100644
--- a/lsl/common/sdf.py
+++ b/lsl/common/sdf.py
@@ -131,6 +131,8 @@ class _TypedParentList(list):
                 for value in values:
                     value._parent = self.parent
             list.extend(self, values)
+        else:
+            raise TypeError("Expected one of: %s" % (', '.join([t.__name__ for t in self.allowed_types])))
             
     def insert(self, index, value):
         if isinstance(value, self.allowed_types):
-- 
2.43.0


From 67704e3704057ade52efbd25a6ecbdec1c826390 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:32:26 +0000
Subject: [PATCH 065/185] fix: allow the spectrometer to be disabled with 0 as
 documented

---
 lsl/common/sdf.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lsl/common/sdf.py b/lsl/common/sdf.py
index 93881dc..fa74a74 100644
--- a/lsl/common/sdf.py
+++ b/lsl/common/sdf.py
@@ -1822,7 +1822,7 @@ class Session(object):
         """Set the number of spectrometer channels to generate, 0 to disable."""
         
         value = int(value)
-        if value not in (2, 4, 8, 16, 32, 64, 128, 256, 512, 1024, 2048, 4096, 8192):
+        if value not in (0, 2, 4, 8, 16, 32, 64, 128, 256, 512, 1024, 2048, 4096, 8192):
             raise ValueError(f"Invalid DR spectrometer channel count '{value}'")
         self.spc_setup[0] = value
         
@@ -1838,7 +1838,7 @@ class Session(object):
         0 to disable."""
         
         value = int(value)
-        if value not in (384, 768, 1536, 3072, 6144, 12288, 24576, 49152, 98304, 196608):
+        if value not in (0, 384, 768, 1536, 3072, 6144, 12288, 24576, 49152, 98304, 196608):
             raise ValueError(f"Invalid DR spectrometer integration count '{value}'")
         self.spc_setup[1] = value
         
-- 
2.43.0


From 87aba30fc962d21c94357a425323b1686237d782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:32:26 +0000
Subject: [PATCH 066/185] fix: report unknown stands for the beam-dipole mode
 and use an integer NDP stand

---
 lsl/common/sdf.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/lsl/common/sdf.py b/lsl/common/sdf.py
index fa74a74..0460945 100644
--- a/lsl/common/sdf.py
+++ b/lsl/common/sdf.py
@@ -1038,10 +1038,13 @@ class DRX(Observation):
             if self._parent is not None:
                 station = self._parent.station
                 
+            dpStand = None
             for ant in station.antennas:
                 if ant.stand.id == stand:
-                    dpStand = (ant.digitizer+1)/2
-                    
+                    dpStand = (ant.digitizer+1)//2
+            if dpStand is None:
+                raise ValueError(f"Stand number {stand} is not part of the station")
+                
             self.beamDipole = [dpStand, beam_gain, dipole_gain, pol.upper()]
             
     def estimate_bytes(self):
@@ -1361,10 +1364,13 @@ class Stepped(Observation):
             if self._parent is not None:
                 station = self._parent.station
                 
+            dpStand = None
             for ant in station.antennas:
                 if ant.stand.id == stand:
-                    dpStand = (ant.digitizer+1)/2
-                    
+                    dpStand = (ant.digitizer+1)//2
+            if dpStand is None:
+                raise ValueError(f"Stand number {stand} is not part of the station")
+                
             self.beamDipole = [dpStand, beam_gain, dipole_gain, pol.upper()]
             
     def estimate_bytes(self):
-- 
2.43.0


From 682cfa04563ab9fd08ad9e47f300c1f9b825e43f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:48:43 +0000
Subject: [PATCH 067/185] fix: do not read a replaced metadata tarball from the
 cache of the old one

---
 lsl/common/_metabundle_utils.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/lsl/common/_metabundle_utils.py b/lsl/common/_metabundle_utils.py
index 656daae..5a010ec 100644
--- a/lsl/common/_metabundle_utils.py
+++ b/lsl/common/_metabundle_utils.py
@@ -24,11 +24,17 @@ FILENAME_RE = re.compile(r'(?P<projectID>[a-zA-Z0-9]{1,8})_(?P<sessionID>\d+)(_(
 
 
 @lru_cache(maxsize=1)
-def _open_tarball(tarname):
+def _open_tarball_version(tarname, version):
     return tarfile.open(tarname, mode='r:*')
 
 
-@lru_cache(maxsize=1)
+def _open_tarball(tarname):
+    # The open tarball is only reused for as long as the name refers to the same,
+    # unmodified, file
+    st = os.stat(tarname)
+    return _open_tarball_version(tarname, (st.st_dev, st.st_ino, st.st_size, st.st_mtime_ns))
+
+
 def _get_members(tarname):
     tf = _open_tarball(tarname)
     return tf.getmembers()
-- 
2.43.0


From 5f6a8f4650e6c5b31d8d64ad78e46ffe18587b96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:48:43 +0000
Subject: [PATCH 068/185] fix: only read regular files from inside a metadata
 tarball

---
 lsl/common/_metabundle_utils.py | 54 +++++++++++-------------
 lsl/common/metabundle.py        | 73 +++++++--------------------------
 2 files changed, 39 insertions(+), 88 deletions(-)

diff --git a/lsl/common/_metabundle_utils.py b/lsl/common/_metabundle_utils.py
index 5a010ec..31d1c77 100644
--- a/lsl/common/_metabundle_utils.py
+++ b/lsl/common/_metabundle_utils.py
@@ -15,7 +15,7 @@ from lsl.common.mcs import MIB
 
 __version__ = '0.1'
 __all__ = ['FILENAME_RE', '_open_tarball', '_get_members', 'managed_mkdtemp',
-           'get_beamformer_min_delay', 'get_session_metadata',
+           '_extract_member', 'get_beamformer_min_delay', 'get_session_metadata',
            'get_asp_configuration', 'get_asp_configuration_summary']
 
 
@@ -60,6 +60,26 @@ class managed_mkdtemp(object):
         return self._dir
 
 
+def _extract_member(tf, member, tempDir):
+    """
+    Extract a single member of an open tarball into a directory and return the
+    name of the extracted file.  Members that are not regular files, e.g., links,
+    or that would end up outside of the directory are not extracted and a
+    RuntimeError is raised.
+    """
+    
+    mname = os.path.abspath(os.path.normpath(os.path.join(tempDir, member.name)))
+    try:
+        if os.path.commonpath([tempDir, mname]) != tempDir:
+            raise ValueError("Not inside the directory")
+    except ValueError:
+        raise RuntimeError(f"Tarball member '{member.name}' is outside of the tarball")
+    if not member.isreg():
+        raise RuntimeError(f"Tarball member '{member.name}' is not a regular file")
+    tf.extract(member, tempDir)
+    return mname
+
+
 def get_beamformer_min_delay(tarname):
     """
     Given an MCS meta-data tarball, extract the minimum beamformer delay in 
@@ -75,17 +95,10 @@ def get_beamformer_min_delay(tarname):
             ti = tf.getmember('mindelay.txt')
         except KeyError:
             return None
-        for member in [ti,]:
-            mname = os.path.abspath(os.path.normpath(os.path.join(tempDir, member.name)))
-            try:
-                if os.path.commonpath([tempDir, mname]) != tempDir:
-                    continue
-            except ValueError:
-                continue
-            tf.extract(member, tempDir)
+        filename = _extract_member(tf, ti, tempDir)
         
         # Parse the SDM file and build the SDM instance
-        with open(os.path.join(tempDir, 'mindelay.txt'), 'r') as fh:
+        with open(filename, 'r') as fh:
             try:
                 mindelay = int(fh.read(), 10)
             except ValueError:
@@ -117,17 +130,9 @@ def get_session_metadata(tarname):
             for ti in _get_members(tarname):
                 if ti.name[-13:] == '_metadata.txt':
                     break
-        for member in [ti,]:
-            mname = os.path.abspath(os.path.normpath(os.path.join(tempDir, member.name)))
-            try:
-                if os.path.commonpath([tempDir, mname]) != tempDir:
-                    continue
-            except ValueError:
-                continue
-            tf.extract(member, tempDir)
+        filename = _extract_member(tf, ti, tempDir)
         
         # Read in the SMF
-        filename = os.path.join(tempDir, ti.name)
         with open(filename, 'r') as fh:
             # Define a regular expresion to match the latest format
             lineRE = re.compile(r"\s*(?P<id>\d{1,}?)\s+\[(?P<tag>[\d_]+?)\]\s+\['?(?P<barcode>.+?)'?\]\s+(?P<outcome>\d)\s+\[(?P<msg>.*?)\]")
@@ -217,15 +222,6 @@ def get_asp_configuration(tarname, which='beginning'):
                     mibs.append(ti)
                     
         if len(mibs) > 0:
-            for member in mibs:
-                mname = os.path.abspath(os.path.normpath(os.path.join(tempDir, member.name)))
-                try:
-                    if os.path.commonpath([tempDir, mname]) != tempDir:
-                        continue
-                except ValueError:
-                    continue
-                tf.extract(member, tempDir)
-            
             # Read in the right MIB
             aspMIB = {}
             for mib in mibs:
@@ -234,7 +230,7 @@ def get_asp_configuration(tarname, which='beginning'):
                 if which == 'end' and mib.name.find('_ASP_end') == -1:
                     continue
                     
-                aspMIB = MIB.from_file(os.path.join(tempDir, mib.name))
+                aspMIB = MIB.from_file(_extract_member(tf, mib, tempDir))
                 break
                 
             # Extract the configuration
diff --git a/lsl/common/metabundle.py b/lsl/common/metabundle.py
index 3bd84e7..9380f37 100644
--- a/lsl/common/metabundle.py
+++ b/lsl/common/metabundle.py
@@ -200,17 +200,10 @@ def get_sdm(tarname):
             ti = tf.getmember('dynamic/sdm.dat')
         except KeyError:
             return None
-        for member in [ti,]:
-            mname = os.path.abspath(os.path.normpath(os.path.join(tempDir, member.name)))
-            try:
-                if os.path.commonpath([tempDir, mname]) != tempDir:
-                    continue
-            except ValueError:
-                continue
-            tf.extract(member, tempDir)
+        filename = _extract_member(tf, ti, tempDir)
         
         # Parse the SDM file and build the SDM instance
-        dynamic = sdm.parse_sdm(os.path.join(tempDir, 'dynamic', 'sdm.dat'))
+        dynamic = sdm.parse_sdm(filename)
         
     return dynamic
 
@@ -231,17 +224,10 @@ def get_mcs_hostname(tarname):
             ti = tf.getmember('mcs.host')
         except KeyError:
             return 'unknown'
-        for member in [ti,]:
-            mname = os.path.abspath(os.path.normpath(os.path.join(tempDir, member.name)))
-            try:
-                if os.path.commonpath([tempDir, mname]) != tempDir:
-                    continue
-            except ValueError:
-                continue
-            tf.extract(member, tempDir)
+        filename = _extract_member(tf, ti, tempDir)
         
         # Read in the name
-        with open(os.path.join(tempDir, 'mcs.host'), 'r') as fh:
+        with open(filename, 'r') as fh:
             name = fh.read().strip()
             
     # Return
@@ -269,17 +255,10 @@ def get_station(tarname, apply_sdm=True):
             hostname = get_mcs_hostname(tarname)
             hostname = hostname.split('-')[0]
             return getattr(stations, hostname, None)
-        for member in [ti,]:
-            mname = os.path.abspath(os.path.normpath(os.path.join(tempDir, member.name)))
-            try:
-                if os.path.commonpath([tempDir, mname]) != tempDir:
-                    continue
-            except ValueError:
-                continue
-            tf.extract(member, tempDir)
+        filename = _extract_member(tf, ti, tempDir)
         
         # Read in the SSMIF
-        station = stations.parse_ssmif(os.path.join(tempDir, 'ssmif.dat'))
+        station = stations.parse_ssmif(filename)
         
         # Get the beamformer minimum delay, if found
         mindelay = get_beamformer_min_delay(tarname)
@@ -320,17 +299,10 @@ def get_session_spec(tarname):
             for ti in _get_members(tarname):
                 if ti.name[-4:] == '.ses':
                     break
-        for member in [ti,]:
-            mname = os.path.abspath(os.path.normpath(os.path.join(tempDir, member.name)))
-            try:
-                if os.path.commonpath([tempDir, mname]) != tempDir:
-                    continue
-            except ValueError:
-                continue
-            tf.extract(member, tempDir)
+        filename = _extract_member(tf, ti, tempDir)
         
         # Read in the SES
-        ses = read_ses_file(os.path.join(tempDir, ti.name))
+        ses = read_ses_file(filename)
         
     # Return
     return ses
@@ -352,13 +324,10 @@ def get_observation_spec(tarname, obs_id=None):
             if ti.name[-4:] == '.obs':
                 tis.append(ti)
         for member in tis:
-            mname = os.path.abspath(os.path.normpath(os.path.join(tempDir, member.name)))
             try:
-                if os.path.commonpath([tempDir, mname]) != tempDir:
-                    continue
-            except ValueError:
+                _extract_member(tf, member, tempDir)
+            except RuntimeError:
                 continue
-            tf.extract(member, tempDir)
         
         # Read in the OBS files
         obsList = []
@@ -409,17 +378,10 @@ def get_sdf(tarname):
         for ti in _get_members(tarname):
             if ti.name[-4:] == '.txt' and ti.name.find('metadata') == -1:
                 break
-        for member in [ti,]:
-            mname = os.path.abspath(os.path.normpath(os.path.join(tempDir, member.name)))
-            try:
-                if os.path.commonpath([tempDir, mname]) != tempDir:
-                    continue
-            except ValueError:
-                continue
-            tf.extract(member, tempDir)
+        filename = _extract_member(tf, ti, tempDir)
         
         # Parse it
-        project = sdf.parse_sdf(os.path.join(tempDir, ti.name))
+        project = sdf.parse_sdf(filename)
         
     # Return the filled-in SDF instance
     return project
@@ -437,17 +399,10 @@ def get_command_script(tarname):
         for ti in _get_members(tarname):
             if ti.name[-3:] == '.cs':
                 break
-        for member in [ti,]:
-            mname = os.path.abspath(os.path.normpath(os.path.join(tempDir, member.name)))
-            try:
-                if os.path.commonpath([tempDir, mname]) != tempDir:
-                    continue
-            except ValueError:
-                continue
-            tf.extract(member, tempDir)
+        filename = _extract_member(tf, ti, tempDir)
         
         # Read in the CS
-        cs = read_cs_file(os.path.join(tempDir, ti.name))
+        cs = read_cs_file(filename)
         
     # Return
     return cs
-- 
2.43.0


From e056ca209bff2d9ebc4027604bae66d30c86fad6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:48:43 +0000
Subject: [PATCH 069/185] fix: do not parse an unrelated file when a metadata
 tarball misses a member

---
 lsl/common/_metabundle_utils.py | 2 ++
 lsl/common/metabundle.py        | 8 +++++++-
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/lsl/common/_metabundle_utils.py b/lsl/common/_metabundle_utils.py
index 31d1c77..b4367d0 100644
--- a/lsl/common/_metabundle_utils.py
+++ b/lsl/common/_metabundle_utils.py
@@ -130,6 +130,8 @@ def get_session_metadata(tarname):
             for ti in _get_members(tarname):
                 if ti.name[-13:] == '_metadata.txt':
                     break
+            else:
+                raise RuntimeError("Cannot find a session meta-data file in the tarball")
         filename = _extract_member(tf, ti, tempDir)
         
         # Read in the SMF
diff --git a/lsl/common/metabundle.py b/lsl/common/metabundle.py
index 9380f37..296e733 100644
--- a/lsl/common/metabundle.py
+++ b/lsl/common/metabundle.py
@@ -299,6 +299,8 @@ def get_session_spec(tarname):
             for ti in _get_members(tarname):
                 if ti.name[-4:] == '.ses':
                     break
+            else:
+                raise RuntimeError("Cannot find a session specification file in the tarball")
         filename = _extract_member(tf, ti, tempDir)
         
         # Read in the SES
@@ -376,8 +378,10 @@ def get_sdf(tarname):
         # Find the right .txt file (not the metadata one) and extract it
         tf = _open_tarball(tarname)
         for ti in _get_members(tarname):
-            if ti.name[-4:] == '.txt' and ti.name.find('metadata') == -1:
+            if ti.name[-4:] == '.txt' and ti.name.find('metadata') == -1 and ti.name != 'mindelay.txt':
                 break
+        else:
+            raise RuntimeError("Cannot find a session definition file in the tarball")
         filename = _extract_member(tf, ti, tempDir)
         
         # Parse it
@@ -399,6 +403,8 @@ def get_command_script(tarname):
         for ti in _get_members(tarname):
             if ti.name[-3:] == '.cs':
                 break
+        else:
+            raise RuntimeError("Cannot find a command script in the tarball")
         filename = _extract_member(tf, ti, tempDir)
         
         # Read in the CS
-- 
2.43.0


From 2fbc572d94f730d070d358ccedc0133258e17823 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:48:43 +0000
Subject: [PATCH 070/185] fix: report truncated session specifications and
 command scripts

---
 lsl/common/metabundle.py | 65 +++++++++++++++++++++-------------------
 1 file changed, 34 insertions(+), 31 deletions(-)

diff --git a/lsl/common/metabundle.py b/lsl/common/metabundle.py
index 296e733..1d89a36 100644
--- a/lsl/common/metabundle.py
+++ b/lsl/common/metabundle.py
@@ -35,8 +35,9 @@ def read_ses_file(filename):
     # Read the SES
     with open(filename, 'rb') as fh:
         bses = parse_c_struct(SSF_STRUCT, endianness='little')
-        fh.readinto(bses)
-        
+        if fh.readinto(bses) != bses.sizeof():
+            raise RuntimeError("File is too short to be a session specification file")
+            
         ## LWA-1 check
         #if bses.FORMAT_VERSION not in (6,):
         #	fh.close()
@@ -148,38 +149,40 @@ def read_cs_file(filename):
             int len;
             """, endianness='little')
             
-            try:
-                fh.readinto(action)
-                
-                if action.tv[0] == 0:
-                    break
-                    
-                if action.len > 0:
-                    if action.len > LWA_CMD_STRUCT_DATA_FIELD_LENGTH:
-                        raise IOError(f"Invalid command data length ({action.len} > {LWA_CMD_STRUCT_DATA_FIELD_LENGTH})")
-                    data = parse_c_struct("""
-                    char data[%i];
-                    """ % action.len, endianness='little')
-
-                    fh.readinto(data)
-                    data = data.data
-                else:
-                    data = None
+            nread = fh.readinto(action)
+            if nread == 0:
+                break
+            if nread != action.sizeof():
+                raise IOError(f"Command script is truncated at byte {fh.tell()}")
                 
-                actionPrime = {'time': action.tv[0] + action.tv[1]/1.0e6, 
-                               'ignore_time': True if action.bASAP else False, 
-                               'subsystem_id': SubsystemID(action.sid),
-                               'command_id': CommandID(action.cid), 
-                               'command_length': action.len, 'data': data}
-                if actionPrime['subsystem_id'] == SubsystemID.DP:
-                    raise RuntimeError("Command script references DP not NDP")
-                if actionPrime['subsystem_id'] == SubsystemID.ADP:
-                    raise RuntimeError("Command script references ADP not NDP")
-                    
-                commands.append( actionPrime )
-            except IOError:
+            if action.tv[0] == 0:
                 break
                 
+            if action.len > 0:
+                if action.len > LWA_CMD_STRUCT_DATA_FIELD_LENGTH:
+                    raise IOError(f"Invalid command data length ({action.len} > {LWA_CMD_STRUCT_DATA_FIELD_LENGTH})")
+                data = parse_c_struct("""
+                char data[%i];
+                """ % action.len, endianness='little')
+                
+                if fh.readinto(data) != data.sizeof():
+                    raise IOError(f"Command script is truncated at byte {fh.tell()}")
+                data = data.data
+            else:
+                data = None
+                
+            actionPrime = {'time': action.tv[0] + action.tv[1]/1.0e6, 
+                           'ignore_time': True if action.bASAP else False, 
+                           'subsystem_id': SubsystemID(action.sid),
+                           'command_id': CommandID(action.cid), 
+                           'command_length': action.len, 'data': data}
+            if actionPrime['subsystem_id'] == SubsystemID.DP:
+                raise RuntimeError("Command script references DP not NDP")
+            if actionPrime['subsystem_id'] == SubsystemID.ADP:
+                raise RuntimeError("Command script references ADP not NDP")
+                
+            commands.append( actionPrime )
+            
     return commands
 
 
-- 
2.43.0


From c620dcab177b3ae8aa77a2054b208b7c55b0bacf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:48:43 +0000
Subject: [PATCH 071/185] fix: include DR5 in the MIB settings of a session
 specification

---
 lsl/common/metabundle.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lsl/common/metabundle.py b/lsl/common/metabundle.py
index 1d89a36..777cdee 100644
--- a/lsl/common/metabundle.py
+++ b/lsl/common/metabundle.py
@@ -45,11 +45,11 @@ def read_ses_file(filename):
         
     record = {'ASP': bses.SESSION_MRP_ASP, 'NDP': bses.SESSION_MRP_NDP, 'SHL': bses.SESSION_MRP_SHL, 
               'MCS': bses.SESSION_MRP_MCS, 'DR1': bses.SESSION_MRP_DR1, 'DR2': bses.SESSION_MRP_DR2,
-              'DR3': bses.SESSION_MRP_DR3, 'DR4': bses.SESSION_MRP_DR4}
+              'DR3': bses.SESSION_MRP_DR3, 'DR4': bses.SESSION_MRP_DR4, 'DR5': bses.SESSION_MRP_DR5}
     
     update = {'ASP': bses.SESSION_MUP_ASP, 'NDP': bses.SESSION_MUP_NDP, 'SHL': bses.SESSION_MUP_SHL, 
               'MCS': bses.SESSION_MUP_MCS, 'DR1': bses.SESSION_MUP_DR1, 'DR2': bses.SESSION_MUP_DR2,
-              'DR3': bses.SESSION_MUP_DR3, 'DR4': bses.SESSION_MUP_DR4}
+              'DR3': bses.SESSION_MUP_DR3, 'DR4': bses.SESSION_MUP_DR4, 'DR5': bses.SESSION_MUP_DR5}
     
     return {'version': bses.FORMAT_VERSION,
             'project_id': bses.PROJECT_ID.lstrip().rstrip(), 'session_id': bses.SESSION_ID, 
-- 
2.43.0


From 9313dd39ac0722b7b31158d24f96e7104e484573 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:48:43 +0000
Subject: [PATCH 072/185] fix: do not read past the end of a short MIB entry

---
 lsl/common/mcs.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lsl/common/mcs.py b/lsl/common/mcs.py
index e1d26bc..1f8440c 100644
--- a/lsl/common/mcs.py
+++ b/lsl/common/mcs.py
@@ -1118,8 +1118,9 @@ class MIBEntry(object):
             """ % (MIB_INDEX_FIELD_LENGTH, MIB_VAL_FIELD_LENGTH), endianness='little')
             
         # Squeeze the binary string into the structure using ctypes magic
-        temp = ctypes.create_string_buffer(value)
-        ctypes.memmove(ctypes.addressof(record), ctypes.addressof(temp), ctypes.sizeof(record))
+        if len(value) < ctypes.sizeof(record):
+            raise ValueError("Entry is too short to be a MIB entry")
+        ctypes.memmove(ctypes.addressof(record), value, ctypes.sizeof(record))
         
         # Bytes to Unicode for Python3
         try:
-- 
2.43.0


From 3d1134032c31576f7c55e890715a72d81293fd6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:48:43 +0000
Subject: [PATCH 073/185] fix: keep the zero bytes of binary MIB values

---
 lsl/common/mcs.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lsl/common/mcs.py b/lsl/common/mcs.py
index 1f8440c..dea898a 100644
--- a/lsl/common/mcs.py
+++ b/lsl/common/mcs.py
@@ -1145,7 +1145,11 @@ class MIBEntry(object):
         mibe = klass()
         mibe.eType = int(record.eType)
         mibe.index = index
-        mibe.value = mibe._parse_value(record.val, dbmType)
+        val = record.val
+        if dbmType[:1] in ('i', 'f'):
+            # Binary values can contain NULs, which end a ctypes string
+            val = bytes(record)[type(record).val.offset:][:int(dbmType[1:2], 10)]
+        mibe.value = mibe._parse_value(val, dbmType)
         mibe.dbmType = dbmType
         mibe.icdType = icdType
         mibe._tv = (int(record.tv[0]), int(record.tv[1]))
-- 
2.43.0


From 6b0046ab2c3ead9ca4b3815e90eef46d7b88e037 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:50:33 +0000
Subject: [PATCH 074/185] fix: read the DR5 settings of a station dynamic MIB

---
 lsl/common/sdm.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lsl/common/sdm.py b/lsl/common/sdm.py
index 02bbbe7..21d0949 100644
--- a/lsl/common/sdm.py
+++ b/lsl/common/sdm.py
@@ -175,6 +175,7 @@ class StationSettings(object):
         self.report['DR2'] = ssStruct.mrp_dr2
         self.report['DR3'] = ssStruct.mrp_dr3
         self.report['DR4'] = ssStruct.mrp_dr4
+        self.report['DR5'] = ssStruct.mrp_dr5
         self.report['SHL'] = ssStruct.mrp_shl
         self.report['MCS'] = ssStruct.mrp_mcs
         
@@ -184,6 +185,7 @@ class StationSettings(object):
         self.update['DR2'] = ssStruct.mup_dr2
         self.update['DR3'] = ssStruct.mup_dr3
         self.update['DR4'] = ssStruct.mup_dr4
+        self.update['DR5'] = ssStruct.mup_dr5
         self.update['SHL'] = ssStruct.mup_shl
         self.update['MCS'] = ssStruct.mup_mcs
         
-- 
2.43.0


From 2588ebe013aee456dfbf108d1876ffa538b4519c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:50:33 +0000
Subject: [PATCH 075/185] fix: allow a subsystem status to be printed

---
 lsl/common/sdm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lsl/common/sdm.py b/lsl/common/sdm.py
index 21d0949..ab44166 100644
--- a/lsl/common/sdm.py
+++ b/lsl/common/sdm.py
@@ -29,7 +29,7 @@ class SubSystemStatus(object):
         self.time = float(time)
         
     def __str__(self):
-        return "%s at %s: %s [%i = %s]" % (self.name, datetime.fromtimestamp(self.time, tz=timezone.utc), self.info, self.summary, self.summary.description)
+        return "%s at %s: %s [%i = %s]" % (self.name, datetime.fromtimestamp(self.time, tz=timezone.utc), self.info, SummaryCode(self.summary).value, SummaryCode(self.summary).description)
         
     def binary_read(self, fh):
         """
-- 
2.43.0


From cee28f7a041087b7249103b5e3246fd079e20c75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:50:33 +0000
Subject: [PATCH 076/185] fix: leave the original antennas alone in
 SDM.update_antennas

---
 lsl/common/sdm.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lsl/common/sdm.py b/lsl/common/sdm.py
index ab44166..41b0235 100644
--- a/lsl/common/sdm.py
+++ b/lsl/common/sdm.py
@@ -3,6 +3,7 @@ Module for reading in and interpreting binary-packed Station Dynamic MIB (SDM)
 files (as defined in MCS0031, v5).
 """
 
+import copy
 from datetime import datetime, timezone
 
 from lsl.common.mcs import SummaryCode, parse_c_struct, flat_to_multi, \
@@ -254,7 +255,7 @@ class SDM(object):
         
         updatedAntennas = []
         for ant in antennas:
-            updatedAntennas.append(ant)
+            updatedAntennas.append(copy.copy(ant))
             
             index0 = ant.stand.id - 1
             index1 = ant.pol
-- 
2.43.0


From c9d865a064ef163155ea342faa2c9121127e78e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:50:33 +0000
Subject: [PATCH 077/185] fix: report truncated station dynamic MIB files

---
 lsl/common/sdm.py | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/lsl/common/sdm.py b/lsl/common/sdm.py
index 41b0235..f7b2b22 100644
--- a/lsl/common/sdm.py
+++ b/lsl/common/sdm.py
@@ -17,6 +17,16 @@ __version__ = '0.1'
 __all__ = ['SubSystemStatus', 'SubSubSystemStatus', 'StationSettings', 'SDM', 'parse_sdm']
 
 
+def _read_struct(fh, struct):
+    """
+    Fill a structure from an open file handle and make sure that the file is not
+    too short to do so.
+    """
+    
+    if fh.readinto(struct) != struct.sizeof():
+        raise IOError(f"SDM file is truncated at byte {fh.tell()}")
+
+
 class SubSystemStatus(object):
     """
     Python object that holds the status for a particular subsystem in a SDM 
@@ -41,7 +51,7 @@ class SubSystemStatus(object):
         ## They are the same size so this really doesn't matter
         sssStruct = parse_c_struct(SUBSYSTEM_STATUS_STRUCT, endianness='little')
         
-        fh.readinto(sssStruct)
+        _read_struct(fh, sssStruct)
         
         self.summary = sssStruct.summary
         self.info = sssStruct.info
@@ -100,7 +110,7 @@ class SubSubSystemStatus(object):
         ssssStruct = parse_c_struct(SUBSUBSYSTEM_STATUS_STRUCT, endianness='little', overrides=overrides)
         
         # Read
-        fh.readinto(ssssStruct)
+        _read_struct(fh, ssssStruct)
         
         # Parse and save
         self.fee = list(ssssStruct.eFEEStat)
@@ -166,7 +176,7 @@ class StationSettings(object):
         ssStruct = parse_c_struct(STATION_SETTINGS_STRUCT, endianness='little')
         
         # Read
-        fh.readinto(ssStruct)
+        _read_struct(fh, ssStruct)
         
         # Parse and save
         ## Common
@@ -292,7 +302,7 @@ def parse_sdm(filename):
         int ndpo_stat[ME_MAX_NDR];     /* corresponds to sc.DPO[i].iStat, but dynamically updated */
         """, endianness='little')
         
-        fh.readinto(ndpsStruct)
+        _read_struct(fh, ndpsStruct)
         
         dynamic.ant_status  = flat_to_multi(ndpsStruct.ant_stat,  *ndpsStruct.dims['ant_stat'])
         dynamic.ndpo_status = flat_to_multi(ndpsStruct.ndpo_stat, *ndpsStruct.dims['ndpo_stat'])
-- 
2.43.0


From c9cd5bdaebeffe546f82ae7d2fd764d6fda09de4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:06:05 +0000
Subject: [PATCH 078/185] fix: read per-stand AT3 settings from a text SSMIF

---
 lsl/common/stations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lsl/common/stations.py b/lsl/common/stations.py
index 580cb22..7460f61 100644
--- a/lsl/common/stations.py
+++ b/lsl/common/stations.py
@@ -1561,7 +1561,7 @@ def _parse_ssmif_text(filename_or_fh):
                 if ids[0] == -1:
                     aspAT3 = [at3 for n in range(nStand)]
                 else:
-                    aspAT3[ids[0]-1] = at1
+                    aspAT3[ids[0]-1] = at3
                 continue
                 
             #
-- 
2.43.0


From bfa68e808013b838c56fe4d910d6eb17a248c4bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:06:05 +0000
Subject: [PATCH 079/185] fix: ignore trailing spaces in a text SSMIF

---
 lsl/common/stations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lsl/common/stations.py b/lsl/common/stations.py
index 7460f61..09abc9f 100644
--- a/lsl/common/stations.py
+++ b/lsl/common/stations.py
@@ -1098,7 +1098,7 @@ def _parse_ssmif_text(filename_or_fh):
                 continue
                 
             keywordSection, value = line.split(None, 1)
-            value = value.split('#', 1)[0]
+            value = value.split('#', 1)[0].strip()
             
             mtch = kwdRE.match(keywordSection)
             keyword = mtch.group('keyword')
-- 
2.43.0


From a4cb957244b78e78431a687767a6c54dd829efa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:06:05 +0000
Subject: [PATCH 080/185] fix: drop the padding of ARX connector labels in a
 binary SSMIF

---
 lsl/common/stations.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lsl/common/stations.py b/lsl/common/stations.py
index 09abc9f..ae022e9 100644
--- a/lsl/common/stations.py
+++ b/lsl/common/stations.py
@@ -1677,9 +1677,9 @@ def _parse_ssmif_binary(filename_or_fh):
         arxStat  = mcs_mod.flat_to_multi(bssmif.eARBStat, *bssmif.dims['eARBStat'])
         arxAnt   = mcs_mod.flat_to_multi(bssmif.iARBAnt, *bssmif.dims['iARBAnt'])
         arxIn    = mcs_mod.flat_to_multi([chr(i) for i in bssmif.sARBIN], *bssmif.dims['sARBIN'])
-        arxIn    = [[''.join(i) for i in j] for j in arxIn]
+        arxIn    = [[''.join([k for k in i if k != '\x00']) for i in j] for j in arxIn]
         arxOut   = mcs_mod.flat_to_multi([chr(i) for i in bssmif.sARBOUT], *bssmif.dims['sARBOUT'])
-        arxOut   = [[''.join(i) for i in j] for j in arxOut]
+        arxOut   = [[''.join([k for k in i if k != '\x00']) for i in j] for j in arxOut]
         
         #
         # SNAP & Server Data
-- 
2.43.0


From 8c469556dfa69327209e555f640562d83b6dbdda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:06:05 +0000
Subject: [PATCH 081/185] fix: only use the parts of a binary SSMIF that are
 filled in

---
 lsl/common/stations.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/lsl/common/stations.py b/lsl/common/stations.py
index ae022e9..b338ade 100644
--- a/lsl/common/stations.py
+++ b/lsl/common/stations.py
@@ -1729,6 +1729,20 @@ def _parse_ssmif_binary(filename_or_fh):
         #
         drxGai = bsettings.drx_gain
         
+        #
+        # Trim everything down to what is in use
+        #
+        nStd = bssmif.nStd
+        stdPos   = stdPos[:nStd]
+        stdAnt, stdOrie, stdStat   = stdAnt[:2*nStd], stdOrie[:2*nStd], stdStat[:2*nStd]
+        stdTheta, stdPhi, stdDesi  = stdTheta[:2*nStd], stdPhi[:2*nStd], stdDesi[:2*nStd]
+        aspFlt, aspAT1 = aspFlt[:nStd], aspAT1[:nStd]
+        aspAT2, aspAT3 = aspAT2[:nStd], aspAT3[:nStd]
+        feeID    = feeID[:bssmif.nFEE]
+        rpdID    = rpdID[:bssmif.nRPD]
+        arxAnt   = [ant[:nChanARX] for ant in arxAnt[:bssmif.nARB]]
+        snapAnt  = [ant[:bssmif.nSnapCh] for ant in snapAnt[:bssmif.nSnap]]
+        
     except Exception as e:
         if close_at_end:
             fh.close()
-- 
2.43.0


From 8b22180ebe085bf90772bb5eb6282b369ea6fbb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:06:05 +0000
Subject: [PATCH 082/185] fix: do not connect unused FEEs, cables, and
 digitizers to the last antenna

---
 lsl/common/stations.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/lsl/common/stations.py b/lsl/common/stations.py
index b338ade..a2988c7 100644
--- a/lsl/common/stations.py
+++ b/lsl/common/stations.py
@@ -1865,11 +1865,15 @@ def parse_ssmif(filename_or_fh):
     # Associate FEEs with Antennas and set the FEE port numbers
     i = 1
     for fee,ant in zip(fees, feeAnt1):
+        if ant == 0:
+            continue
         antennas[ant-1].fee = fee
         antennas[ant-1].fee_port = 1
         i += 1
     i = 1
     for fee,ant in zip(fees, feeAnt2):
+        if ant == 0:
+            continue
         antennas[ant-1].fee = fee
         antennas[ant-1].fee_port = 2
         i += 1
@@ -1877,6 +1881,8 @@ def parse_ssmif(filename_or_fh):
     # Associate Cables with Antennas
     i = 1
     for cbl,ant in zip(cables, rpdAnt):
+        if ant == 0:
+            continue
         antennas[ant-1].cable = cbl
         i += 1
         
@@ -1896,9 +1902,10 @@ def parse_ssmif(filename_or_fh):
     j = 1
     for brd,inp in zip(snapAnt,snapInR):
         for ant,con in zip(brd,inp):
-            antennas[ant-1].board = i
-            antennas[ant-1].digitizer = j
-            antennas[ant-1].input = con
+            if ant != 0:
+                antennas[ant-1].board = i
+                antennas[ant-1].digitizer = j
+                antennas[ant-1].input = con
             j += 1
         i += 1
         
-- 
2.43.0


From 102eeae99fcaeafb5dcba6aefc199dbd532a1f25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:06:05 +0000
Subject: [PATCH 083/185] fix: use the ASP settings of its own stand for every
 cable

---
 lsl/common/stations.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/lsl/common/stations.py b/lsl/common/stations.py
index a2988c7..24ad437 100644
--- a/lsl/common/stations.py
+++ b/lsl/common/stations.py
@@ -1848,10 +1848,13 @@ def parse_ssmif(filename_or_fh):
     minAT1 = min(aspAT1)
     minAT2 = min(aspAT2)
     minAT3 = min(aspAT3)
-    for cbl,at1,at2,at3 in zip(cables, aspAT1, aspAT2, aspAT3):
-        asp_atten_db = (at1 - minAT1)*2     # AT1 is 2 dB per step
-        asp_atten_db += (at2 - minAT2)*2    # AT2 is 2 dB per step
-        asp_atten_db += (at3 - minAT3)*0.5  # AT3 is 0.5 dB per step
+    for cbl,ant in zip(cables, rpdAnt):
+        if ant == 0:
+            continue
+        std = stdAnt[ant-1] - 1             # The settings are per stand
+        asp_atten_db = (aspAT1[std] - minAT1)*2     # AT1 is 2 dB per step
+        asp_atten_db += (aspAT2[std] - minAT2)*2    # AT2 is 2 dB per step
+        asp_atten_db += (aspAT3[std] - minAT3)*0.5  # AT3 is 0.5 dB per step
         cbl.asp_atten_db = asp_atten_db
         
     # Build up a list of Antenna instances and load them with antenna-level
-- 
2.43.0


From 32dcfcc5cf456ae7c619d7ea183357d2ce7bed0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:06:05 +0000
Subject: [PATCH 084/185] fix: keep the clock offset and ASP attenuation when a
 cable is copied

---
 lsl/common/stations.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lsl/common/stations.py b/lsl/common/stations.py
index 24ad437..599dd48 100644
--- a/lsl/common/stations.py
+++ b/lsl/common/stations.py
@@ -764,7 +764,8 @@ class Cable(object):
         return tw_fill(_build_repr(n, a), subsequent_indent='    ')
         
     def __reduce__(self):
-        return (Cable, (self.id, self.length, self.vf, self.dd, self.a0, self.a1, self.ref_freq, self.stretch))
+        return (Cable, (self.id, self.length, self.vf, self.dd, self.a0, self.a1, self.ref_freq, self.stretch),
+                {'clock_offset': self.clock_offset, 'asp_atten_db': self.asp_atten_db})
         
     def __hash__(self):
         return hash(self.__reduce__()[1])
-- 
2.43.0


From d75e3fafff49f88da510b8c431ee5df29ad3bd23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:06:36 +0000
Subject: [PATCH 085/185] fix: keep the beamformer delay and DRX gain when a
 station is copied

---
 lsl/common/stations.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lsl/common/stations.py b/lsl/common/stations.py
index 599dd48..ed4f917 100644
--- a/lsl/common/stations.py
+++ b/lsl/common/stations.py
@@ -244,7 +244,9 @@ class LWAStation(ephem.Observer, LWAStationBase):
         return tw_fill(_build_repr(n, a), subsequent_indent='    ')
         
     def __reduce__(self):
-        return (LWAStation, (self.name, self.lat*180/np.pi, self.long*180/np.pi, self.elev, self.id, tuple(self.antennas), self.interface))
+        return (LWAStation, (self.name, self.lat*180/np.pi, self.long*180/np.pi, self.elev, self.id, tuple(self.antennas), self.interface),
+                {attr: getattr(self, attr) for attr in ('beamformer_min_delay', 'beamformer_min_delay_samples', 'default_drx_gain')
+                 if hasattr(self, attr)})
         
     def __hash__(self):
         return hash(self.__reduce__()[1])
-- 
2.43.0


From ce1ed394a632865874f79da7104eac0f13aab840 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:06:36 +0000
Subject: [PATCH 086/185] fix: keep stands usable after a second station with
 their antennas is gone

---
 lsl/common/stations.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/lsl/common/stations.py b/lsl/common/stations.py
index ed4f917..ea2e8a9 100644
--- a/lsl/common/stations.py
+++ b/lsl/common/stations.py
@@ -7,7 +7,6 @@ import re
 import numpy as np
 import ephem
 import struct
-import weakref
 import importlib.util
 from textwrap import fill as tw_fill
 from functools import total_ordering
@@ -152,10 +151,10 @@ class LWAStationBase(object):
         """
         
         if index is not None:
-            self._antennas[index].stand._parent = weakref.proxy(self)
+            self._antennas[index].stand._parent = self
         else:
             for a in self._antennas:
-                a.stand._parent = weakref.proxy(self)
+                a.stand._parent = self
 
 
 class LWAStation(ephem.Observer, LWAStationBase):
-- 
2.43.0


From b5d54e682b1b395fdac257c1e5d800cb671727b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:06:36 +0000
Subject: [PATCH 087/185] fix: use the response of filter 7 for Rev. I ARX
 boards

---
 lsl/common/stations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lsl/common/stations.py b/lsl/common/stations.py
index ea2e8a9..db8a2e9 100644
--- a/lsl/common/stations.py
+++ b/lsl/common/stations.py
@@ -972,7 +972,7 @@ class ARX(object):
         filename = f"arx/ARX_board_{self.id:04d}_filters.npz"
         mapper = mapper = {0: 0, 1: 1, 2: 2, 4: 3}
         if self.revision() == 'I':
-            mapper = {0: 3, 1: 1, 2: 7, 3: 4, 4: 2, 5: 0, 6: 5, 7: 2}
+            mapper = {0: 3, 1: 1, 2: 7, 3: 4, 4: 2, 5: 0, 6: 5, 7: 6}
             
         # Read in the file and convert it to a numpy array
         with DataAccess.open(filename, 'rb') as fh:
-- 
2.43.0


From 54b222b24ab5277051d27221dcd9a21c3f457dfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:10:27 +0000
Subject: [PATCH 088/185] fix: allow a station to be copied with copy.copy

---
 lsl/common/stations.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/lsl/common/stations.py b/lsl/common/stations.py
index db8a2e9..4d71fce 100644
--- a/lsl/common/stations.py
+++ b/lsl/common/stations.py
@@ -250,6 +250,21 @@ class LWAStation(ephem.Observer, LWAStationBase):
     def __hash__(self):
         return hash(self.__reduce__()[1])
         
+    def copy(self):
+        """
+        Return a copy of the station that has the same antennas, date, and
+        observing conditions.
+        """
+        
+        klass, args, state = self.__reduce__()
+        station = klass(*args)
+        station.__dict__.update(state)
+        for attr in ('date', 'horizon', 'epoch', 'temp', 'pressure'):
+            setattr(station, attr, getattr(self, attr))
+        return station
+        
+    __copy__ = copy
+    
     def compute(self, body):
         """
         Update the provided ephem.Body instance with the current location as 
-- 
2.43.0


From 9ade705cc9a65742d74c0ca881b50392fdb8a27c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:17:48 +0000
Subject: [PATCH 089/185] fix: write the right dates to UVFITS files

---
 lsl/writer/uvfits.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lsl/writer/uvfits.py b/lsl/writer/uvfits.py
index e9dc125..c29cfd8 100644
--- a/lsl/writer/uvfits.py
+++ b/lsl/writer/uvfits.py
@@ -366,9 +366,10 @@ class Uv(WriterBase):
                                           np.array(blineList), np.array(sourceList), 
                                           np.array(intTimeList)], 
                                  parbscales=[1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0], 
-                                 parbzeros=[0.0, 0.0, 0.0, utcR, 0.0, 0.0, 0.0, 0.0], 
+                                 parbzeros=[0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0], 
                                  bitpix=-32)
         primary = astrofits.GroupsHDU(uv)
+        primary.header['PZERO4'] = utcR
         
         primary.header['EXTEND'] = (True, 'indicates UVFITS file')
         primary.header['GROUPS'] = (True, 'indicates UVFITS file')
-- 
2.43.0


From 8b2c9499f79a15c5b84130865168d21086f3cb37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:59:48 +0000
Subject: [PATCH 090/185] fix: write visibilities in the order of their own
 baselines

---
 lsl/writer/fitsidi.py        |  3 ++-
 lsl/writer/measurementset.py | 14 ++++++--------
 lsl/writer/uvfits.py         |  3 ++-
 3 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/lsl/writer/fitsidi.py b/lsl/writer/fitsidi.py
index 8567fe2..0b670a7 100644
--- a/lsl/writer/fitsidi.py
+++ b/lsl/writer/fitsidi.py
@@ -1061,9 +1061,10 @@ class Idi(WriterBase):
                 
             # Sort the data by packed baseline
             try:
-                if len(dataSet.visibilities) != len(order):
+                if list(dataSet.baselines) != orderBaselines:
                     raise NameError
             except NameError:
+                orderBaselines = list(dataSet.baselines)
                 order = dataSet.argsort(mapper=mapper, shift=self._PACKING_BIT_SHIFT)
                 try:
                     del baselineMapped
diff --git a/lsl/writer/measurementset.py b/lsl/writer/measurementset.py
index 55ac5d1..273ab3f 100644
--- a/lsl/writer/measurementset.py
+++ b/lsl/writer/measurementset.py
@@ -799,15 +799,12 @@ try:
             for dataSet in self.data:
                 # Sort the data by packed baseline
                 try:
-                    if len(dataSet.visibilities) != len(order):
+                    if list(dataSet.baselines) != orderBaselines:
                         raise NameError
                 except NameError:
+                    orderBaselines = list(dataSet.baselines)
                     order = dataSet.argsort(mapper=mapper, shift=16)
-                    try:
-                        del baselineMapped
-                    except NameError:
-                        pass
-                        
+                    
                 # Deal with defininig the values of the new data set
                 if dataSet.pol == self.stokes[0]:
                     ## Figure out the new date/time for the observation
@@ -850,9 +847,10 @@ try:
                     ## Populate the metadata
                     ### Add in the baselines
                     try:
-                        ant1List
-                        ant2List
+                        if antBaselines != orderBaselines:
+                            raise NameError
                     except NameError:
+                        antBaselines = orderBaselines
                         a1List, a2List = [], []
                         for o in order:
                             antenna1, antenna2 = dataSet.baselines[o]
diff --git a/lsl/writer/uvfits.py b/lsl/writer/uvfits.py
index c29cfd8..294ac7e 100644
--- a/lsl/writer/uvfits.py
+++ b/lsl/writer/uvfits.py
@@ -258,9 +258,10 @@ class Uv(WriterBase):
         for dataSet in self.data:
             # Sort the data by packed baseline
             try:
-                if len(dataSet.visibilities) != len(order):
+                if list(dataSet.baselines) != orderBaselines:
                     raise NameError
             except NameError:
+                orderBaselines = list(dataSet.baselines)
                 order = dataSet.argsort(mapper=mapper)
                 try:
                     del baselineMapped
-- 
2.43.0


From 0cfed220f0def538deaecc7b06f45243ca867248 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:00:28 +0000
Subject: [PATCH 091/185] fix: write the antenna positions to measurement sets
 only once

---
 lsl/writer/measurementset.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/lsl/writer/measurementset.py b/lsl/writer/measurementset.py
index 273ab3f..cac1f3f 100644
--- a/lsl/writer/measurementset.py
+++ b/lsl/writer/measurementset.py
@@ -286,9 +286,7 @@ try:
             
             for i,ant in enumerate(self.array[0]['ants']):
                 #tb.putcell('OFFSET', i, [0.0, 0.0, 0.0])
-                tb.putcell('POSITION', i, [ant.x + self.array[0]['center'][0],
-                                           ant.y + self.array[0]['center'][1], 
-                                           ant.z + self.array[0]['center'][2]])
+                tb.putcell('POSITION', i, [ant.x, ant.y, ant.z])
                 #tb.putcell('TYPE', i, 'GROUND-BASED')
                 #tb.putcell('DISH_DIAMETER', i, 2.0)
                 #tb.putcell('FLAG_ROW', i, False)
-- 
2.43.0


From 1aa4facbc8a7dd0f9c1a5b272be46b6a377a3dee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:00:52 +0000
Subject: [PATCH 092/185] fix: take the J2000 coordinates of a source as such
 for its (u,v,w)

---
 lsl/writer/fitsidi.py        | 2 +-
 lsl/writer/measurementset.py | 2 +-
 lsl/writer/uvfits.py         | 2 +-
 lsl/writer/virtual.py        | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/lsl/writer/fitsidi.py b/lsl/writer/fitsidi.py
index 0b670a7..ed7df5a 100644
--- a/lsl/writer/fitsidi.py
+++ b/lsl/writer/fitsidi.py
@@ -1098,7 +1098,7 @@ class Idi(WriterBase):
                 else:
                     ### Real-live sources (ephem.Body instances)
                     equ = FK5(dataSet.source.a_ra*astrounits.rad, dataSet.source.a_dec*astrounits.rad,
-                              equinox=date)
+                              equinox='J2000')
                     
                     name = dataSet.source.name
                     
diff --git a/lsl/writer/measurementset.py b/lsl/writer/measurementset.py
index cac1f3f..9fc4f8b 100644
--- a/lsl/writer/measurementset.py
+++ b/lsl/writer/measurementset.py
@@ -825,7 +825,7 @@ try:
                     else:
                         ### Real-live sources (ephem.Body instances)
                         equ = FK5(dataSet.source.a_ra*astrounits.rad, dataSet.source.a_dec*astrounits.rad,
-                                  equinox=date)
+                                  equinox='J2000')
                         
                         name = dataSet.source.name
                         
diff --git a/lsl/writer/uvfits.py b/lsl/writer/uvfits.py
index 294ac7e..f1fcdf4 100644
--- a/lsl/writer/uvfits.py
+++ b/lsl/writer/uvfits.py
@@ -294,7 +294,7 @@ class Uv(WriterBase):
                 else:
                     ### Real-live sources (ephem.Body instances)
                     equ = FK5(dataSet.source.a_ra*astrounits.rad, dataSet.source.a_dec*astrounits.rad,
-                              equinox=date)
+                              equinox='J2000')
                     
                     name = dataSet.source.name
                     
diff --git a/lsl/writer/virtual.py b/lsl/writer/virtual.py
index c9a65ba..b515a13 100644
--- a/lsl/writer/virtual.py
+++ b/lsl/writer/virtual.py
@@ -105,7 +105,7 @@ class VirtualWriter(WriterBase):
             equ = tc.transform_to(FK5(equinox=date))
         else:
             equ = FK5(source.a_ra*astrounits.rad, source.a_dec*astrounits.rad,
-                      equinox=date)
+                      equinox='J2000')
             
         # Phase center coordinates
         it = equ.transform_to(ITRS(location=self.el, obstime=date))
-- 
2.43.0


From 897674f096cca02db96a6c0d4ccb175338e2c92d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:00:52 +0000
Subject: [PATCH 093/185] fix: give compute_uvw the hour angle in hours for
 virtual files

---
 lsl/writer/virtual.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lsl/writer/virtual.py b/lsl/writer/virtual.py
index b515a13..5b304b9 100644
--- a/lsl/writer/virtual.py
+++ b/lsl/writer/virtual.py
@@ -109,7 +109,7 @@ class VirtualWriter(WriterBase):
             
         # Phase center coordinates
         it = equ.transform_to(ITRS(location=self.el, obstime=date))
-        HA = ((self.el.lon - it.spherical.lon).wrap_at('180deg')).deg
+        HA = ((self.el.lon - it.spherical.lon).wrap_at('180deg')).hourangle
         dec = it.spherical.lat.deg
         
         # (u,v,w) coordinates
-- 
2.43.0


From af0fa2e0041eb11c8af71b0371acd4d1f783f5ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:01:26 +0000
Subject: [PATCH 094/185] fix: name zenith pointings the same way everywhere in
 a file and list them once

---
 lsl/writer/fitsidi.py        | 5 ++++-
 lsl/writer/measurementset.py | 5 ++++-
 lsl/writer/uvfits.py         | 5 ++++-
 3 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/lsl/writer/fitsidi.py b/lsl/writer/fitsidi.py
index ed7df5a..2639b41 100644
--- a/lsl/writer/fitsidi.py
+++ b/lsl/writer/fitsidi.py
@@ -880,7 +880,7 @@ class Idi(WriterBase):
         sourceID = 0
         for dataSet in self.data:
             if dataSet.pol == self.stokes[0]:
-                date = AstroTime(dataSet.obsTime, format='mjd', scale='tai')
+                date = AstroTime(astro.taimjd_to_utcjd(dataSet.obsTime), format='jd', scale='utc')
                 
                 try:
                     currSourceName = dataSet.source.name
@@ -901,6 +901,9 @@ class Idi(WriterBase):
                         (tsecs, secs) = math.modf(raHms.seconds)
                         
                         name = "ZA%02d%02d%02d%01d" % (raHms.hours, raHms.minutes, int(secs), int(tsecs * 10.0))
+                        if name in nameList:
+                            continue
+                            
                         equPo = equ.transform_to(FK5(equinox='J2000'))
                         
                         equ = astro.equ_posn.from_astropy(equ)
diff --git a/lsl/writer/measurementset.py b/lsl/writer/measurementset.py
index 9fc4f8b..e688265 100644
--- a/lsl/writer/measurementset.py
+++ b/lsl/writer/measurementset.py
@@ -476,7 +476,7 @@ try:
             sourceID = 0
             for dataSet in self.data:
                 if dataSet.pol == self.stokes[0]:
-                    date = AstroTime(dataSet.obsTime, format='mjd', scale='tai')
+                    date = AstroTime(astro.taimjd_to_utcjd(dataSet.obsTime), format='jd', scale='utc')
                     
                     try:
                         currSourceName = dataSet.source.name
@@ -497,6 +497,9 @@ try:
                             (tsecs, secs) = math.modf(raHms.seconds)
                             
                             name = "ZA%02d%02d%02d%01d" % (raHms.hours, raHms.minutes, int(secs), int(tsecs * 10.0))
+                            if name in nameList:
+                                continue
+                                
                             equPo = equ.transform_to(FK5(equinox='J2000'))
                             
                             equ = astro.equ_posn.from_astropy(equ)
diff --git a/lsl/writer/uvfits.py b/lsl/writer/uvfits.py
index f1fcdf4..7d73f96 100644
--- a/lsl/writer/uvfits.py
+++ b/lsl/writer/uvfits.py
@@ -686,7 +686,7 @@ class Uv(WriterBase):
         sourceID = 0
         for dataSet in self.data:
             if dataSet.pol == self.stokes[0]:
-                date = AstroTime(dataSet.obsTime, format='mjd', scale='tai')
+                date = AstroTime(astro.taimjd_to_utcjd(dataSet.obsTime), format='jd', scale='utc')
                 
                 try:
                     currSourceName = dataSet.source.name
@@ -707,6 +707,9 @@ class Uv(WriterBase):
                         (tsecs, secs) = math.modf(raHms.seconds)
                         
                         name = "ZA%02d%02d%02d%01d" % (raHms.hours, raHms.minutes, int(secs), int(tsecs * 10.0))
+                        if name in nameList:
+                            continue
+                            
                         equPo = equ.transform_to(FK5(equinox='J2000'))
                         
                         equ = astro.equ_posn.from_astropy(equ)
-- 
2.43.0


From b3b374d93425a2b1f1ff6a6a2a8fe3221b78e94d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:01:50 +0000
Subject: [PATCH 095/185] fix: read back stand numbers of more than three
 digits

---
 lsl/imaging/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lsl/imaging/utils.py b/lsl/imaging/utils.py
index 51efcbc..09d4ce6 100644
--- a/lsl/imaging/utils.py
+++ b/lsl/imaging/utils.py
@@ -84,7 +84,7 @@ vLight = vLight.to('m/s').value
 
 # Regular expression for trying to get the stand number out of an antenna
 # name
-_annameRE = re.compile(r'^.*?(?P<id>\d{1,3})$')
+_annameRE = re.compile(r'^.*?(?P<id>\d+)$')
 
 
 def CorrelatedData(filename):
-- 
2.43.0


From 1d253f9a167eb54bfbd3a9426317e8bf0be8b650 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:01:50 +0000
Subject: [PATCH 096/185] fix: keep the integration time in virtual files

---
 lsl/writer/virtual.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lsl/writer/virtual.py b/lsl/writer/virtual.py
index 5b304b9..4d624a5 100644
--- a/lsl/writer/virtual.py
+++ b/lsl/writer/virtual.py
@@ -176,7 +176,8 @@ class VirtualWriter(WriterBase):
         pds = PolarizationDataSet(pol, visibilities, weight=weights)
         vds = VisibilityDataSet(obsJD, self.freq, numericBaselines, uvw,
                                 antennaarray=self.antenna_array,
-                                phase_center=phase_center)
+                                phase_center=phase_center,
+                                int_time=intTime)
         vds.append(pds)
         return vds
         
-- 
2.43.0


From 541033cf073f1fff79627d6de47ee17f662d07f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:01:50 +0000
Subject: [PATCH 097/185] fix: accept reference times with fractions of a
 second in FITS IDI and virtual files

---
 lsl/imaging/utils.py  | 3 ++-
 lsl/writer/virtual.py | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/lsl/imaging/utils.py b/lsl/imaging/utils.py
index 09d4ce6..4699d9a 100644
--- a/lsl/imaging/utils.py
+++ b/lsl/imaging/utils.py
@@ -287,7 +287,8 @@ class CorrelatedDataIDI(CorrelatedDataBase):
             # Station/telescope information
             try:
                 self.telescope = hdulist[0].header['TELESCOP']
-                self.date_obs = datetime.strptime(hdulist[0].header['DATE-OBS'], "%Y-%m-%dT%H:%M:%S")
+                dt = hdulist[0].header['DATE-OBS'].split('.', 1)[0]
+                self.date_obs = datetime.strptime(dt, "%Y-%m-%dT%H:%M:%S")
             except ValueError:
                 ## Catch for DiFX FITS-IDI files
                 self.date_obs = datetime.strptime(hdulist[0].header['DATE-OBS'], "%Y-%m-%d")
diff --git a/lsl/writer/virtual.py b/lsl/writer/virtual.py
index 4d624a5..3d246d0 100644
--- a/lsl/writer/virtual.py
+++ b/lsl/writer/virtual.py
@@ -81,7 +81,7 @@ class VirtualWriter(WriterBase):
             return False
             
         # Convert the reference time to a JD
-        ref_time = datetime.strptime(self.ref_time, "%Y-%m-%dT%H:%M:%S")
+        ref_time = datetime.strptime(self.ref_time.split('.', 1)[0], "%Y-%m-%dT%H:%M:%S")
         mjd, mpm = datetime_to_mjdmpm(ref_time)
         ref_jd = mjd + mpm/1000.0 / 86400 + astro.MJD_OFFSET
         
-- 
2.43.0


From b8045e12e4f3afb769b8697bb3139505479ae21d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:02:08 +0000
Subject: [PATCH 098/185] fix: refuse to write data sets that lack a
 polarization or have different baselines

---
 lsl/writer/fitsidi.py        | 20 ++++++++++++++++++++
 lsl/writer/measurementset.py |  1 +
 lsl/writer/uvfits.py         |  1 +
 3 files changed, 22 insertions(+)

diff --git a/lsl/writer/fitsidi.py b/lsl/writer/fitsidi.py
index 2639b41..501af77 100644
--- a/lsl/writer/fitsidi.py
+++ b/lsl/writer/fitsidi.py
@@ -363,6 +363,25 @@ class WriterBase(object):
             
         self.data.append( self._UVData(obsTime, intTime, baselines, visibilities, weights=weights, pol=numericPol, source=source) )
         
+    def _validate_data(self):
+        """
+        Make sure that the (sorted) data sets contain every polarization exactly
+        once, for the same baselines, at every time.
+        """
+        
+        for i,dataSet in enumerate(self.data):
+            p = i % self.nStokes
+            if p == 0:
+                first = dataSet
+                baselines = {(a1.stand.id, a2.stand.id) for a1,a2 in first.baselines}
+            if dataSet.pol != self.stokes[p] or dataSet.obsTime != first.obsTime:
+                raise RuntimeError(f"Polarizations do not match at TAI MJD {first.obsTime}")
+            if dataSet.baselines is not first.baselines:
+                if {(a1.stand.id, a2.stand.id) for a1,a2 in dataSet.baselines} != baselines:
+                    raise RuntimeError(f"Baselines do not match at TAI MJD {first.obsTime}")
+        if len(self.data) % self.nStokes != 0:
+            raise RuntimeError(f"Polarizations do not match at TAI MJD {first.obsTime}")
+            
     def write(self):
         """
         Fill in the file will all of the required supporting metadata.
@@ -507,6 +526,7 @@ class Idi(WriterBase):
             
         # Sort the data set
         self.data.sort()
+        self._validate_data()
         
         self._write_primary_hdu()
         self._write_geometry_hdu()
diff --git a/lsl/writer/measurementset.py b/lsl/writer/measurementset.py
index e688265..c398187 100644
--- a/lsl/writer/measurementset.py
+++ b/lsl/writer/measurementset.py
@@ -210,6 +210,7 @@ try:
                 
             # Sort the data set
             self.data.sort()
+            self._validate_data()
             
             # Write the tables
             self._write_main_table()
diff --git a/lsl/writer/uvfits.py b/lsl/writer/uvfits.py
index 7d73f96..fbc5db0 100644
--- a/lsl/writer/uvfits.py
+++ b/lsl/writer/uvfits.py
@@ -193,6 +193,7 @@ class Uv(WriterBase):
             
         # Sort the data set
         self.data.sort()
+        self._validate_data()
         
         self._write_aipssu_hdu(dummy=True)
         self._write_primary_hdu()
-- 
2.43.0


From b081f37422415c96c48307edf361f8c88f4df8f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:02:08 +0000
Subject: [PATCH 099/185] fix: describe polarizations that are not consecutive
 correctly in FITS files

---
 lsl/writer/fitsidi.py | 6 +++++-
 lsl/writer/uvfits.py  | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/lsl/writer/fitsidi.py b/lsl/writer/fitsidi.py
index 501af77..70da8f4 100644
--- a/lsl/writer/fitsidi.py
+++ b/lsl/writer/fitsidi.py
@@ -517,6 +517,8 @@ class Idi(WriterBase):
         # Validate
         if self.nStokes == 0:
             raise RuntimeError("No polarization setups defined")
+        if len(set(np.diff(self.stokes))) > 1:
+            raise RuntimeError("Polarizations are not evenly spaced in their numeric codes")
         if len(self.freq) == 0:
             raise RuntimeError("No frequency setups defined")
         if self.nAnt == 0:
@@ -1250,7 +1252,9 @@ class Idi(WriterBase):
         
         uv.header['MAXIS2'] = (self.nStokes, 'number of pixels in STOKES axis')
         uv.header['CTYPE2'] = ('STOKES', 'axis 2 is STOKES axis (polarization)')
-        if self.stokes[0] < 0:
+        if self.nStokes > 1:
+            uv.header['CDELT2'] = float(self.stokes[1] - self.stokes[0])
+        elif self.stokes[0] < 0:
             uv.header['CDELT2'] = -1.0
         else:
             uv.header['CDELT2'] = 1.0
diff --git a/lsl/writer/uvfits.py b/lsl/writer/uvfits.py
index fbc5db0..ecb0215 100644
--- a/lsl/writer/uvfits.py
+++ b/lsl/writer/uvfits.py
@@ -182,6 +182,8 @@ class Uv(WriterBase):
         # Validate
         if self.nStokes == 0:
             raise RuntimeError("No polarization setups defined")
+        if len(set(np.diff(self.stokes))) > 1:
+            raise RuntimeError("Polarizations are not evenly spaced in their numeric codes")
         if len(self.freq) == 0:
             raise RuntimeError("No frequency setups defined")
         if len(self.freq) > 1:
@@ -396,7 +398,9 @@ class Uv(WriterBase):
         primary.header['CRVAL2'] = 1.0
         
         primary.header['CTYPE3'] = ('STOKES', 'axis 3 is STOKES axis (polarization)')
-        if self.stokes[0] < 0:
+        if self.nStokes > 1:
+            primary.header['CDELT3'] = float(self.stokes[1] - self.stokes[0])
+        elif self.stokes[0] < 0:
             primary.header['CDELT3'] = -1.0
         else:
             primary.header['CDELT3'] = 1.0
-- 
2.43.0


From 6cd23d80e66a8772494f3a4f98a8369cbd75adba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:02:18 +0000
Subject: [PATCH 100/185] fix: read measurement sets with more than two
 spectral windows

---
 lsl/imaging/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lsl/imaging/utils.py b/lsl/imaging/utils.py
index 4699d9a..bec6acb 100644
--- a/lsl/imaging/utils.py
+++ b/lsl/imaging/utils.py
@@ -1102,7 +1102,7 @@ try:
                     baselines.append( (a1,a2) )
                     select.append( b )
                 if len(self._windows) > 1:
-                    baselines = baselines[:len(baselines)//2]
+                    baselines = baselines[:len(baselines)//len(self._windows)]
                     selectU = select[:len(baselines)]
                 else:
                     selectU = select
-- 
2.43.0


From b4a6df43de31387f4988caf233632620885db565 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:02:28 +0000
Subject: [PATCH 101/185] fix: give the antennas of a measurement set the same
 IDs as those of the other formats

---
 lsl/imaging/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lsl/imaging/utils.py b/lsl/imaging/utils.py
index bec6acb..319dd07 100644
--- a/lsl/imaging/utils.py
+++ b/lsl/imaging/utils.py
@@ -948,7 +948,7 @@ try:
                 sid = int(strip_letters(ants.col('NAME')[i]))
                 
                 stand = stations.Stand(sid, *enz)
-                antennas.append( stations.Antenna(2*(stand.id-1)-1, stand=stand) )
+                antennas.append( stations.Antenna(2*(stand.id-1)+1, stand=stand, pol=0) )
             self.station.antennas = antennas
             
             # Antennas
-- 
2.43.0


From f183727cf5b71ade04b9237b44cb5846c8f30b23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:02:28 +0000
Subject: [PATCH 102/185] fix: do not follow links when unpacking a measurement
 set

---
 lsl/imaging/utils.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lsl/imaging/utils.py b/lsl/imaging/utils.py
index 319dd07..7e0c508 100644
--- a/lsl/imaging/utils.py
+++ b/lsl/imaging/utils.py
@@ -874,6 +874,9 @@ try:
                                 continue
                         except ValueError:
                             continue
+                        if not (member.isreg() or member.isdir()):
+                            ## Links could lead outside of the directory
+                            continue
                             
                         tf.extract(member, tempdir)
                         
-- 
2.43.0


From 44b5a2bcbbb899040d99239bf07ce99768ae3c80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:02:57 +0000
Subject: [PATCH 103/185] fix: allow visibilities to be appended to a
 polarization

---
 lsl/imaging/data.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/lsl/imaging/data.py b/lsl/imaging/data.py
index 13e428d..2c08b2e 100644
--- a/lsl/imaging/data.py
+++ b/lsl/imaging/data.py
@@ -58,19 +58,25 @@ class PolarizationDataSet(object):
         Append a new visibility to the object.
         """
         
+        data = np.atleast_2d(data)
+        if weight is not None:
+            weight = np.atleast_2d(weight)
+        if mask is not None:
+            mask = np.atleast_2d(mask)
+            
         if self.data.size == 0:
             ## Deal with the first batch of data being added
             self.data = data
             
             if weight is None:
                 weight = np.ones(data.shape, dtype=np.float32)
-            if self.weight.shape != data.shape:
+            if weight.shape != data.shape:
                 raise ValueError("weight shape does not match the data shape")
             self.weight = weight
             
             if mask is None:
                 mask = np.zeros(data.shape, dtype=bool)
-            if self.mask.shape != data.shape:
+            if mask.shape != data.shape:
                 raise ValueError("mask shape does not match the data shape")
             self.mask = mask
             
@@ -79,13 +85,13 @@ class PolarizationDataSet(object):
             
             if weight is None:
                 weight = np.ones(data.shape, dtype=np.float32)
-            if self.weight.shape != data.shape:
+            if weight.shape != data.shape:
                 raise ValueError("weight shape does not match the data shape")
             self.weight = np.vstack([self.weight, weight])
             
             if mask is None:
                 mask = np.zeros(data.shape, dtype=bool)
-            if self.mask.shape != data.shape:
+            if mask.shape != data.shape:
                 raise ValueError("mask shape does not match the data shape")
             self.mask = np.vstack([self.mask, mask])
             
-- 
2.43.0


From 54096e23af4bd4fb1c31ff5271db2948d316ca12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:02:57 +0000
Subject: [PATCH 104/185] fix: select antennas by stand number for all
 integrations when asked to

---
 lsl/imaging/data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lsl/imaging/data.py b/lsl/imaging/data.py
index 2c08b2e..84d0a4c 100644
--- a/lsl/imaging/data.py
+++ b/lsl/imaging/data.py
@@ -625,6 +625,6 @@ class VisibilityData(object):
         
         new_data = VisibilityData()
         for data_set in self:
-            new_data.append( data_set.get_antenna_subset(include=include, exclude=exclude, indicies=True) )
+            new_data.append( data_set.get_antenna_subset(include=include, exclude=exclude, indicies=indicies) )
         return new_data
         
-- 
2.43.0


From a823e1d0ae38300faf7ac4d5552566693c413b8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:02:57 +0000
Subject: [PATCH 105/185] fix: select antennas by index in data sets without an
 antenna array

---
 lsl/imaging/data.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lsl/imaging/data.py b/lsl/imaging/data.py
index 84d0a4c..f0fff54 100644
--- a/lsl/imaging/data.py
+++ b/lsl/imaging/data.py
@@ -363,15 +363,16 @@ class VisibilityDataSet(object):
                 raise AttributeError("No anntennaarray defined for this data set")
                 
         # Convert to indicies, if needed
-        stands = list(self.antennaarray.get_stands())
+        nant = max([max(bl) for bl in self.baselines], default=-1) + 1
         if not indicies:
+            stands = list(self.antennaarray.get_stands())
             if include is not None:
                 include = [stands.index(i) for i in include if i in stands]
             if exclude is not None:
                 exclude = [stands.index(e) for e in exclude if e in stands]
                 
         # Merge include and exclude
-        to_keep = list(range(len(stands)))
+        to_keep = list(range(nant))
         if include is not None:
             to_keep = include
         for e in exclude:
-- 
2.43.0


From e4139d21d3e27a43bd4178d2a61dfb3d508d1ce2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:09:19 +0000
Subject: [PATCH 106/185] fix: read measurement sets with only a few antennas

---
 lsl/imaging/utils.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/lsl/imaging/utils.py b/lsl/imaging/utils.py
index 7e0c508..554a6a8 100644
--- a/lsl/imaging/utils.py
+++ b/lsl/imaging/utils.py
@@ -937,9 +937,15 @@ try:
                 elv = np.append(elv, el)
                 
             ## Estimate the center of the station
-            sLat = robust.mean(lat)
-            sLng = robust.mean(lng)
-            sElv = robust.mean(elv)
+            try:
+                sLat = robust.mean(lat)
+                sLng = robust.mean(lng)
+                sElv = robust.mean(elv)
+            except ValueError:
+                ### Too few antennas to be robust
+                sLat = lat.mean()
+                sLng = lng.mean()
+                sElv = elv.mean()
             
             ## Build a preliminayr represenation of the station
             self.station = stations.LWAStation(ants.col('STATION')[0], sLat, sLng, sElv)
-- 
2.43.0


From 5984d0fb54400a3c39e2e704b0e41d7a07040289 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:33:58 +0000
Subject: [PATCH 107/185] fix: count the windows without clipping for each
 product of a Stokes visibility

---
 lsl/correlator/stokes.cpp | 26 ++++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/lsl/correlator/stokes.cpp b/lsl/correlator/stokes.cpp
index 2110ecc..024a832 100644
--- a/lsl/correlator/stokes.cpp
+++ b/lsl/correlator/stokes.cpp
@@ -646,37 +646,47 @@ void compute_xengine_three(long nStand,
     OutType tempVis1, tempVis2;
     
     // Time-domain blanking control
-    long nActVis;
+    long nActVisXX, nActVisYY, nActVisXY, nActVisYX;
     
     #ifdef _OPENMP
-        #pragma omp parallel default(shared) private(c, f, nActVis, tempVis1, tempVis2)
+        #pragma omp parallel default(shared) private(c, f, nActVisXX, nActVisYY, nActVisXY, nActVisYX, tempVis1, tempVis2)
     #endif
     {
         #ifdef _OPENMP
             #pragma omp for schedule(OMP_SCHEDULER)
         #endif
         for(bl=0; bl<nBL; bl++) {
-            nActVis = 0;
+            nActVisXX = 0;
+            nActVisYY = 0;
+            nActVisXY = 0;
+            nActVisYX = 0;
             for(f=0; f<nFFT; f++) {
-                nActVis += (long) (*(validX+ mapper[bl][0]*nFFT + f) & *(validY + mapper[bl][1]*nFFT + f));
+                nActVisXX += (long) (*(validX + mapper[bl][0]*nFFT + f) & *(validX + mapper[bl][1]*nFFT + f));
+                nActVisYY += (long) (*(validY + mapper[bl][0]*nFFT + f) & *(validY + mapper[bl][1]*nFFT + f));
+                nActVisXY += (long) (*(validX + mapper[bl][0]*nFFT + f) & *(validY + mapper[bl][1]*nFFT + f));
+                nActVisYX += (long) (*(validY + mapper[bl][0]*nFFT + f) & *(validX + mapper[bl][1]*nFFT + f));
             }
             
             for(c=0; c<nChan; c++) {
                 // I
                 blas_dotc_sub(nFFT, (dataX + mapper[bl][1]*nChan*nFFT + c*nFFT), 1, (dataX + mapper[bl][0]*nChan*nFFT + c*nFFT), 1, &tempVis1);
                 blas_dotc_sub(nFFT, (dataY + mapper[bl][1]*nChan*nFFT + c*nFFT), 1, (dataY + mapper[bl][0]*nChan*nFFT + c*nFFT), 1, &tempVis2);
-                *(dataA + 0*nBL*nChan + bl*nChan + c) = (tempVis1 + tempVis2) / (float) nActVis;
+                tempVis1 /= (float) nActVisXX;
+                tempVis2 /= (float) nActVisYY;
+                *(dataA + 0*nBL*nChan + bl*nChan + c) = tempVis1 + tempVis2;
                 
                 // Q
-                *(dataA + 1*nBL*nChan + bl*nChan + c) = (tempVis1 - tempVis2) / (float) nActVis;
+                *(dataA + 1*nBL*nChan + bl*nChan + c) = tempVis1 - tempVis2;
                 
                 // U
                 blas_dotc_sub(nFFT, (dataY + mapper[bl][1]*nChan*nFFT + c*nFFT), 1, (dataX + mapper[bl][0]*nChan*nFFT + c*nFFT), 1, &tempVis1);
                 blas_dotc_sub(nFFT, (dataX + mapper[bl][0]*nChan*nFFT + c*nFFT), 1, (dataY + mapper[bl][1]*nChan*nFFT + c*nFFT), 1, &tempVis2);
-                *(dataA + 2*nBL*nChan + bl*nChan + c) = (tempVis1 + tempVis2) / (float) nActVis;
+                tempVis1 /= (float) nActVisXY;
+                tempVis2 /= (float) nActVisYX;
+                *(dataA + 2*nBL*nChan + bl*nChan + c) = tempVis1 + tempVis2;
                 
                 // V
-                *(dataA + 3*nBL*nChan + bl*nChan + c) = (tempVis1 - tempVis2) / (float) nActVis / OutType(0,1);
+                *(dataA + 3*nBL*nChan + bl*nChan + c) = (tempVis1 - tempVis2) / OutType(0,1);
             }
         }
     }
-- 
2.43.0


From f36f0fbc149007f61035759c941492cd264661fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:33:58 +0000
Subject: [PATCH 108/185] fix: use the YX product of the baseline for its
 Stokes U and V visibilities

---
 lsl/correlator/stokes.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lsl/correlator/stokes.cpp b/lsl/correlator/stokes.cpp
index 024a832..99abe61 100644
--- a/lsl/correlator/stokes.cpp
+++ b/lsl/correlator/stokes.cpp
@@ -680,7 +680,7 @@ void compute_xengine_three(long nStand,
                 
                 // U
                 blas_dotc_sub(nFFT, (dataY + mapper[bl][1]*nChan*nFFT + c*nFFT), 1, (dataX + mapper[bl][0]*nChan*nFFT + c*nFFT), 1, &tempVis1);
-                blas_dotc_sub(nFFT, (dataX + mapper[bl][0]*nChan*nFFT + c*nFFT), 1, (dataY + mapper[bl][1]*nChan*nFFT + c*nFFT), 1, &tempVis2);
+                blas_dotc_sub(nFFT, (dataX + mapper[bl][1]*nChan*nFFT + c*nFFT), 1, (dataY + mapper[bl][0]*nChan*nFFT + c*nFFT), 1, &tempVis2);
                 tempVis1 /= (float) nActVisXY;
                 tempVis2 /= (float) nActVisYX;
                 *(dataA + 2*nBL*nChan + bl*nChan + c) = tempVis1 + tempVis2;
-- 
2.43.0


From 2fc8eb3f1b590ffabfed62d336574d25357d1ecf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:34:39 +0000
Subject: [PATCH 109/185] fix: take only windows that lie within the data for
 all overlaps

---
 lsl/correlator/core.cpp | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/lsl/correlator/core.cpp b/lsl/correlator/core.cpp
index c84ec3c..8051770 100644
--- a/lsl/correlator/core.cpp
+++ b/lsl/correlator/core.cpp
@@ -425,7 +425,14 @@ static PyObject *FEngine(PyObject *self, PyObject *args, PyObject *kwds) {
                                        (double*) PyArray_DATA(delay), fifo, frac);
     
     // Find out how large the output array needs to be and initialize it
-    nFFT = (nSamps - fifoMax) / (((1+isReal)*nChan)/Overlap) - ((1+isReal)*nChan)/(((1+isReal)*nChan)/Overlap) + 1;
+    nFFT = nSamps - fifoMax - (1+isReal)*nChan;     // Where the last window starts
+    if( nFFT < 0 ) {
+        PyErr_Format(PyExc_RuntimeError, "Not enough samples for the delays and transform length");
+        aligned64_free(fifo);
+        aligned64_free(frac);
+        goto fail;
+    }
+    nFFT = (nFFT*Overlap + Overlap - 1) / ((1+isReal)*nChan) + 1;
     npy_intp dims[3];
     dims[0] = (npy_intp) nStand;
     dims[1] = (npy_intp) nChan;
@@ -627,7 +634,14 @@ static PyObject *PFBEngine(PyObject *self, PyObject *args, PyObject *kwds) {
                                        (double*) PyArray_DATA(delay), fifo, frac);
     
     // Find out how large the output array needs to be and initialize it
-    nFFT = (nSamps - fifoMax) / (((1+isReal)*nChan)/Overlap) - ((1+isReal)*nChan)/(((1+isReal)*nChan)/Overlap) + 1;
+    nFFT = nSamps - fifoMax - (1+isReal)*nChan;     // Where the last window starts
+    if( nFFT < 0 ) {
+        PyErr_Format(PyExc_RuntimeError, "Not enough samples for the delays and transform length");
+        aligned64_free(fifo);
+        aligned64_free(frac);
+        goto fail;
+    }
+    nFFT = (nFFT*Overlap + Overlap - 1) / ((1+isReal)*nChan) + 1;
     npy_intp dims[3];
     dims[0] = (npy_intp) nStand;
     dims[1] = (npy_intp) nChan;
-- 
2.43.0


From 804ebd8f74d7e2cf758d1725b928bb9634571881 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:35:07 +0000
Subject: [PATCH 110/185] fix: correlate polarizations that have different
 numbers of windows

---
 lsl/correlator/fx.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/lsl/correlator/fx.py b/lsl/correlator/fx.py
index fad91b8..8d9cbee 100644
--- a/lsl/correlator/fx.py
+++ b/lsl/correlator/fx.py
@@ -322,8 +322,11 @@ def FXMaster(signals, antennas, LFFT=64, overlap=1, include_auto=False, window=n
     else:
         signalsF2, validF2 = func(signals[signalsIndex2,:], freq, delays2, LFFT=LFFT, overlap=overlap, sample_rate=sample_rate, clip_level=clip_level, window=window)
         
+    # The two polarizations can have different delays and numbers of windows
+    nWin = min([signalsF1.shape[2], signalsF2.shape[2]])
+    
     # X
-    output = _core.XEngine2(signalsF1, signalsF2, validF1, validF2)
+    output = _core.XEngine2(signalsF1[:,:,:nWin], signalsF2[:,:,:nWin], validF1[:,:nWin], validF2[:,:nWin])
     if not include_auto:
         # Remove auto-correlations from the output of the X engine if we don't 
         # need them.  To do this we need to first build the full list of baselines
@@ -470,8 +473,11 @@ def FXStokes(signals, antennas, LFFT=64, overlap=1, include_auto=False, window=n
     
     signalsF2, validF2 = func(signals[signalsIndex2,:], freq, delays2, LFFT=LFFT, overlap=overlap, sample_rate=sample_rate, clip_level=clip_level, window=window)
     
+    # The two polarizations can have different delays and numbers of windows
+    nWin = min([signalsF1.shape[2], signalsF2.shape[2]])
+    
     # X
-    output = _stokes.XEngine3(signalsF1, signalsF2, validF1, validF2)
+    output = _stokes.XEngine3(signalsF1[:,:,:nWin], signalsF2[:,:,:nWin], validF1[:,:nWin], validF2[:,:nWin])
     if not include_auto:
         # Remove auto-correlations from the output of the X engine if we don't 
         # need them.  To do this we need to first build the full list of baselines
-- 
2.43.0


From a0eb5ad85aa9516cdc8c2e319ed21ce2c73be2ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:35:07 +0000
Subject: [PATCH 111/185] fix: remove the same baselines from the visibilities
 as from the list of baselines

---
 lsl/correlator/fx.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/lsl/correlator/fx.py b/lsl/correlator/fx.py
index 8d9cbee..85dbddc 100644
--- a/lsl/correlator/fx.py
+++ b/lsl/correlator/fx.py
@@ -331,8 +331,8 @@ def FXMaster(signals, antennas, LFFT=64, overlap=1, include_auto=False, window=n
         # Remove auto-correlations from the output of the X engine if we don't 
         # need them.  To do this we need to first build the full list of baselines
         # (including auto-correlations) and then prune that.
-        baselinesFull = uvutils.get_baselines(antennas1, antennas2=antennas2, include_auto=True)
-        fom = np.array([a1.stand != a2.stand for (a1,a2) in baselinesFull])
+        baselinesFull = uvutils.get_baselines(range(nStands), include_auto=True)
+        fom = np.array([i != j for (i,j) in baselinesFull])
         nonAuto = np.where(fom)[0]
         output = output[nonAuto,:]
         
@@ -482,8 +482,8 @@ def FXStokes(signals, antennas, LFFT=64, overlap=1, include_auto=False, window=n
         # Remove auto-correlations from the output of the X engine if we don't 
         # need them.  To do this we need to first build the full list of baselines
         # (including auto-correlations) and then prune that.
-        baselinesFull = uvutils.get_baselines(antennas1, antennas2=antennas2, include_auto=True)
-        fom = np.array([a1.stand != a2.stand for (a1,a2) in baselinesFull])
+        baselinesFull = uvutils.get_baselines(range(nStands), include_auto=True)
+        fom = np.array([i != j for (i,j) in baselinesFull])
         nonAuto = np.where(fom)[0]
         output = output[:,nonAuto,:]
         
@@ -592,8 +592,8 @@ def XMaster(freq, signals, antennas, include_auto=False, pol='XX', gain_correct=
         # Remove auto-correlations from the output of the X engine if we don't 
         # need them.  To do this we need to first build the full list of baselines
         # (including auto-correlations) and then prune that.
-        baselinesFull = uvutils.get_baselines(antennas1, antennas2=antennas2, include_auto=True)
-        fom = np.array([a1.stand != a2.stand for (a1,a2) in baselinesFull])
+        baselinesFull = uvutils.get_baselines(range(nStands), include_auto=True)
+        fom = np.array([i != j for (i,j) in baselinesFull])
         nonAuto = np.where(fom)[0]
         output = output[nonAuto,:]
         
@@ -702,8 +702,8 @@ def XStokes(freq, signals, antennas, include_auto=False, gain_correct=False, ret
         # Remove auto-correlations from the output of the X engine if we don't 
         # need them.  To do this we need to first build the full list of baselines
         # (including auto-correlations) and then prune that.
-        baselinesFull = uvutils.get_baselines(antennas1, antennas2=antennas2, include_auto=True)
-        fom = np.array([a1.stand != a2.stand for (a1,a2) in baselinesFull])
+        baselinesFull = uvutils.get_baselines(range(nStands), include_auto=True)
+        fom = np.array([i != j for (i,j) in baselinesFull])
         nonAuto = np.where(fom)[0]
         output = output[:,nonAuto,:]
         
-- 
2.43.0


From 3c59bcd53c548723696e929e3dd20c56084f381d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:35:07 +0000
Subject: [PATCH 112/185] fix: correct the gains of all baselines and both
 polarizations of Stokes visibilities

---
 lsl/correlator/fx.py | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/lsl/correlator/fx.py b/lsl/correlator/fx.py
index 85dbddc..142fff5 100644
--- a/lsl/correlator/fx.py
+++ b/lsl/correlator/fx.py
@@ -473,6 +473,12 @@ def FXStokes(signals, antennas, LFFT=64, overlap=1, include_auto=False, window=n
     
     signalsF2, validF2 = func(signals[signalsIndex2,:], freq, delays2, LFFT=LFFT, overlap=overlap, sample_rate=sample_rate, clip_level=clip_level, window=window)
     
+    # Apply cable gain corrections (if needed)
+    if gain_correct:
+        for i in range(nStands):
+            signalsF1[i,:,:] /= np.sqrt(antennas1[i].cable.gain(freq))[:,np.newaxis]
+            signalsF2[i,:,:] /= np.sqrt(antennas2[i].cable.gain(freq))[:,np.newaxis]
+            
     # The two polarizations can have different delays and numbers of windows
     nWin = min([signalsF1.shape[2], signalsF2.shape[2]])
     
@@ -487,14 +493,6 @@ def FXStokes(signals, antennas, LFFT=64, overlap=1, include_auto=False, window=n
         nonAuto = np.where(fom)[0]
         output = output[:,nonAuto,:]
         
-    # Apply cable gain corrections (if needed)
-    if gain_correct:
-        for bl in range(output.shape[0]):
-            cableGain1 = baselines[bl][0].cable.gain(freq)
-            cableGain2 = baselines[bl][1].cable.gain(freq)
-            
-            output[:,bl,:] /= np.sqrt(cableGain1*cableGain2)
-            
     # Create antenna baseline list (if needed)
     if return_baselines:
         returnValues = (baselines, freq, output)
-- 
2.43.0


From b3c2bc1a2a1aa0dadac1cf03e25cc199884aab0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:35:07 +0000
Subject: [PATCH 113/185] fix: apply the delays and gains of both polarizations
 to Stokes visibilities

---
 lsl/correlator/fx.py | 30 +++++++++++++-----------------
 1 file changed, 13 insertions(+), 17 deletions(-)

diff --git a/lsl/correlator/fx.py b/lsl/correlator/fx.py
index 142fff5..7b597b0 100644
--- a/lsl/correlator/fx.py
+++ b/lsl/correlator/fx.py
@@ -685,15 +685,24 @@ def XStokes(freq, signals, antennas, include_auto=False, gain_correct=False, ret
         minDelay = delays2[:,dlyRef].min()
     delays1 -= minDelay
     delays2 -= minDelay
-    delays1 = {antennas1[i].stand.id: delays1[i] for i in list(range(nStands))}
-    delays2 = {antennas2[i].stand.id: delays2[i] for i in list(range(nStands))}
     
-    # Polarization split
+    # Polarization split, with the delays and cable gain corrections (if needed) 
+    # that are different for the two polarizations
     signals1 = signals[signalsIndex1,...]
     valid1 = np.ones((signals1.shape[0],signals1.shape[2]), dtype=np.uint8)
     signals2 = signals[signalsIndex2,...]
     valid2 = np.ones((signals2.shape[0],signals2.shape[2]), dtype=np.uint8)
-    
+    for i in range(nStands):
+        phaseRot1 = np.exp(2j*np.pi*freq*delays1[i])
+        phaseRot2 = np.exp(2j*np.pi*freq*delays2[i])
+        
+        if gain_correct:
+            phaseRot1 /= np.sqrt(antennas1[i].cable.gain(freq))
+            phaseRot2 /= np.sqrt(antennas2[i].cable.gain(freq))
+            
+        signals1[i,...] *= phaseRot1[:,np.newaxis]
+        signals2[i,...] *= phaseRot2[:,np.newaxis]
+        
     # X
     output = _stokes.XEngine3(signals1, signals2, valid1, valid2)
     if not include_auto:
@@ -705,19 +714,6 @@ def XStokes(freq, signals, antennas, include_auto=False, gain_correct=False, ret
         nonAuto = np.where(fom)[0]
         output = output[:,nonAuto,:]
         
-    # Apply cable gain corrections (if needed)
-    for bl in range(output.shape[1]):
-        phaseRot1 = np.exp(2j*np.pi*freq*delays1[baselines[bl][0].stand.id])
-        phaseRot2 = np.exp(2j*np.pi*freq*delays2[baselines[bl][1].stand.id])
-        
-        output[:,bl,:] *= phaseRot2.conj()*phaseRot1
-        
-        if gain_correct:
-            cableGain1 = baselines[bl][0].cable.gain(freq)
-            cableGain2 = baselines[bl][1].cable.gain(freq)
-            
-            output[:,bl,:] /= np.sqrt(cableGain1*cableGain2)
-            
     # Create antenna baseline list (if needed)
     if return_baselines:
         returnValues = (baselines, output)
-- 
2.43.0


From 2bbc350223c68ceb6eda9bb50c01587adf7d5438 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:35:23 +0000
Subject: [PATCH 114/185] fix: find auto-correlations in antennas_to_baseline

---
 lsl/correlator/uvutils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lsl/correlator/uvutils.py b/lsl/correlator/uvutils.py
index 1296b1a..0aff6f1 100644
--- a/lsl/correlator/uvutils.py
+++ b/lsl/correlator/uvutils.py
@@ -118,7 +118,7 @@ def antennas_to_baseline(ant1, ant2, antennas, antennas2=None, baseline_list=Non
     # Loop over the baselines until we find one that matches.  If we don't find 
     # one, return -1
     for i,baseline in enumerate(baseline_list):
-        if ant1 in baseline and ant2 in baseline:
+        if (ant1 == baseline[0] and ant2 == baseline[1]) or (ant1 == baseline[1] and ant2 == baseline[0]):
             return i
             
     return -1
-- 
2.43.0


From 512c3cce4642a60b983d573e199db99ccf634906 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:35:25 +0000
Subject: [PATCH 115/185] fix: do not let rounding put NaNs at the ends of
 (u,v) tracks

---
 lsl/correlator/uvutils.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lsl/correlator/uvutils.py b/lsl/correlator/uvutils.py
index 0aff6f1..56ea08b 100644
--- a/lsl/correlator/uvutils.py
+++ b/lsl/correlator/uvutils.py
@@ -287,8 +287,9 @@ def compute_uv_track(antennas_or_baselines, dec=34.070, freq=49.0e6, site=lwa1):
         xyz = np.ravel(xyz)
         
         uRange = np.linspace(-np.sqrt(xyz[0]**2 + xyz[1]**2), np.sqrt(xyz[0]**2 + xyz[1]**2), num=256)
-        vRange1 = np.sqrt(xyz[0]**2 + xyz[1]**2 - uRange**2)*np.sin(dec2) + xyz[2]*np.cos(dec2)
-        vRange2 = -np.sqrt(xyz[0]**2 + xyz[1]**2 - uRange**2)*np.sin(dec2) + xyz[2]*np.cos(dec2)
+        vRange = np.sqrt(np.maximum(xyz[0]**2 + xyz[1]**2 - uRange**2, 0.0))
+        vRange1 = vRange*np.sin(dec2) + xyz[2]*np.cos(dec2)
+        vRange2 = -vRange*np.sin(dec2) + xyz[2]*np.cos(dec2)
         
         uvTrack[count,0,0:256] = uRange * freq / np.array(speedOfLight)
         uvTrack[count,1,0:256] = vRange1 * freq / np.array(speedOfLight)
-- 
2.43.0


From f102310579eecde13b9f2f6c08bf16860cec0bb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:44:55 +0000
Subject: [PATCH 116/185] fix: find the center of arrays that consist of
 outriggers only

---
 lsl/misc/beamformer.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lsl/misc/beamformer.py b/lsl/misc/beamformer.py
index c25a14e..28db5da 100644
--- a/lsl/misc/beamformer.py
+++ b/lsl/misc/beamformer.py
@@ -103,6 +103,8 @@ def calc_delay(antennas, freq=49.0e6, azimuth=0.0, altitude=90.0):
             
         xyz[i,:] = ant.stand.xyz
         i += 1
+    if not good:
+        good = list(range(len(antennas)))
         
     arrayX = xyz[good,0].mean()
     arrayY = xyz[good,1].mean()
@@ -281,6 +283,8 @@ def phase_beam_shape(antennas, sample_rate=ndp_common.fS, central_freq=49.0e6, a
             
         xyz[i,:] = ant.stand.xyz
         i += 1
+    if not good:
+        good = list(range(len(antennas)))
         
     arrayX = xyz[good,0].mean()
     arrayY = xyz[good,1].mean()
-- 
2.43.0


From 6a867c3e692e3637f07c5ed5b2d0c7d639152f9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:51:25 +0000
Subject: [PATCH 117/185] Revert "fix: use the YX product of the baseline for
 its Stokes U and V visibilities"

This reverts commit f36f0fbc149007f61035759c941492cd264661fa.
---
 lsl/correlator/stokes.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lsl/correlator/stokes.cpp b/lsl/correlator/stokes.cpp
index 99abe61..024a832 100644
--- a/lsl/correlator/stokes.cpp
+++ b/lsl/correlator/stokes.cpp
@@ -680,7 +680,7 @@ void compute_xengine_three(long nStand,
                 
                 // U
                 blas_dotc_sub(nFFT, (dataY + mapper[bl][1]*nChan*nFFT + c*nFFT), 1, (dataX + mapper[bl][0]*nChan*nFFT + c*nFFT), 1, &tempVis1);
-                blas_dotc_sub(nFFT, (dataX + mapper[bl][1]*nChan*nFFT + c*nFFT), 1, (dataY + mapper[bl][0]*nChan*nFFT + c*nFFT), 1, &tempVis2);
+                blas_dotc_sub(nFFT, (dataX + mapper[bl][0]*nChan*nFFT + c*nFFT), 1, (dataY + mapper[bl][1]*nChan*nFFT + c*nFFT), 1, &tempVis2);
                 tempVis1 /= (float) nActVisXY;
                 tempVis2 /= (float) nActVisYX;
                 *(dataA + 2*nBL*nChan + bl*nChan + c) = tempVis1 + tempVis2;
-- 
2.43.0


From 7c17c4747583291cbe8bd1c680d4fdd9dd317b00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:52:26 +0000
Subject: [PATCH 118/185] fix: count the windows of both terms of Stokes U and
 V by the product they use

---
 lsl/correlator/stokes.cpp | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/lsl/correlator/stokes.cpp b/lsl/correlator/stokes.cpp
index 024a832..a6a8051 100644
--- a/lsl/correlator/stokes.cpp
+++ b/lsl/correlator/stokes.cpp
@@ -646,10 +646,10 @@ void compute_xengine_three(long nStand,
     OutType tempVis1, tempVis2;
     
     // Time-domain blanking control
-    long nActVisXX, nActVisYY, nActVisXY, nActVisYX;
+    long nActVisXX, nActVisYY, nActVisXY;
     
     #ifdef _OPENMP
-        #pragma omp parallel default(shared) private(c, f, nActVisXX, nActVisYY, nActVisXY, nActVisYX, tempVis1, tempVis2)
+        #pragma omp parallel default(shared) private(c, f, nActVisXX, nActVisYY, nActVisXY, tempVis1, tempVis2)
     #endif
     {
         #ifdef _OPENMP
@@ -659,12 +659,10 @@ void compute_xengine_three(long nStand,
             nActVisXX = 0;
             nActVisYY = 0;
             nActVisXY = 0;
-            nActVisYX = 0;
             for(f=0; f<nFFT; f++) {
                 nActVisXX += (long) (*(validX + mapper[bl][0]*nFFT + f) & *(validX + mapper[bl][1]*nFFT + f));
                 nActVisYY += (long) (*(validY + mapper[bl][0]*nFFT + f) & *(validY + mapper[bl][1]*nFFT + f));
                 nActVisXY += (long) (*(validX + mapper[bl][0]*nFFT + f) & *(validY + mapper[bl][1]*nFFT + f));
-                nActVisYX += (long) (*(validY + mapper[bl][0]*nFFT + f) & *(validX + mapper[bl][1]*nFFT + f));
             }
             
             for(c=0; c<nChan; c++) {
@@ -682,7 +680,7 @@ void compute_xengine_three(long nStand,
                 blas_dotc_sub(nFFT, (dataY + mapper[bl][1]*nChan*nFFT + c*nFFT), 1, (dataX + mapper[bl][0]*nChan*nFFT + c*nFFT), 1, &tempVis1);
                 blas_dotc_sub(nFFT, (dataX + mapper[bl][0]*nChan*nFFT + c*nFFT), 1, (dataY + mapper[bl][1]*nChan*nFFT + c*nFFT), 1, &tempVis2);
                 tempVis1 /= (float) nActVisXY;
-                tempVis2 /= (float) nActVisYX;
+                tempVis2 /= (float) nActVisXY;
                 *(dataA + 2*nBL*nChan + bl*nChan + c) = tempVis1 + tempVis2;
                 
                 // V
-- 
2.43.0


From 94637c8c4a938d9f59ac8fca2e5125bd4b705469 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:47:25 +0000
Subject: [PATCH 119/185] fix: look at all half-samples when finding the mode

---
 lsl/statistics/robust.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lsl/statistics/robust.py b/lsl/statistics/robust.py
index 61677c3..84894e8 100644
--- a/lsl/statistics/robust.py
+++ b/lsl/statistics/robust.py
@@ -173,14 +173,15 @@ def mode(inputData, axis=None, dtype=None):
                 i2 = data[2] - data[1]
                 if i1 < i2:
                     return data[:2].mean()
-                elif i2 > i1:
+                elif i2 < i1:
                     return data[1:].mean()
                 else:
                     return data[1]
             else:
                 wMin = data[-1] - data[0]
                 N = data.size // 2 + data.size % 2 
-                for i in range(0, N):
+                j = 0
+                for i in range(0, data.size-N+1):
                     w = data[i+N-1] - data[i] 
                     if w < wMin:
                         wMin = w
-- 
2.43.0


From 531442a226d18aeae5781c206bee5e600f5d19df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:47:25 +0000
Subject: [PATCH 120/185] fix: add the mean back to robust polynomial fits of
 order zero

---
 lsl/statistics/robust.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lsl/statistics/robust.py b/lsl/statistics/robust.py
index 84894e8..82bef60 100644
--- a/lsl/statistics/robust.py
+++ b/lsl/statistics/robust.py
@@ -488,7 +488,9 @@ def linefit(inputX, inputY, max_iter=25, bisector=False, bisquare_limit=6.0, clo
 def __polyfit_rescale(coeffs, x0, y0):
     order = len(coeffs)-1
     
-    if order == 1:
+    if order == 0:
+        coeffs[0] = coeffs[0] + y0
+    elif order == 1:
         coeffs[0] = coeffs[0]-coeffs[1]*x0 + y0
     elif order == 2:
         coeffs[0] = coeffs[0]-coeffs[1]*x0+coeffs[2]*x0**2 + y0
-- 
2.43.0


From 291d66e26e7634e77e16bf3ec9100ec6a5aac5d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:47:25 +0000
Subject: [PATCH 121/185] fix: fit large data sets with few good points in
 robust.polyfit

---
 lsl/statistics/robust.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lsl/statistics/robust.py b/lsl/statistics/robust.py
index 82bef60..a48f802 100644
--- a/lsl/statistics/robust.py
+++ b/lsl/statistics/robust.py
@@ -549,7 +549,7 @@ def polyfit(inputX, inputY, order, max_iter=25):
         cc = npp_polyfit(u, v, order)
         yFit = npp_polyval(u, cc)
     else:
-        lsqfit = 0
+        lsqFit = 0
         q = np.argsort(u)
         u = u[q]
         v = v[q]
-- 
2.43.0


From 009bc78af168525bd52b2f999ce1ca900f303d98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:47:25 +0000
Subject: [PATCH 122/185] fix: count the points along the axis that the
 spectral kurtosis is taken over

---
 lsl/statistics/kurtosis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lsl/statistics/kurtosis.py b/lsl/statistics/kurtosis.py
index f1f76c4..a34a5c8 100644
--- a/lsl/statistics/kurtosis.py
+++ b/lsl/statistics/kurtosis.py
@@ -160,7 +160,7 @@ def spectral_power(x, N=1, axis=None):
     should be ~1.
     """
     
-    M = len(x)
+    M = x.size if axis is None else x.shape[axis]
     
     k = M*(x**2).sum(axis=axis)/(x.sum(axis=axis))**2 - 1.0
     k *= (M*N+1)/(M-1)
-- 
2.43.0


From d69b73c82dedebe498bf41c247998130f89ed9a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:47:25 +0000
Subject: [PATCH 123/185] fix: restore the numpy error levels when the limits
 of the kurtosis cannot be found

---
 lsl/statistics/kurtosis.py | 47 +++++++++++++++++---------------------
 1 file changed, 21 insertions(+), 26 deletions(-)

diff --git a/lsl/statistics/kurtosis.py b/lsl/statistics/kurtosis.py
index a34a5c8..92cb2c0 100644
--- a/lsl/statistics/kurtosis.py
+++ b/lsl/statistics/kurtosis.py
@@ -110,34 +110,29 @@ def get_limits(sigma, M, N=1):
     """
     
     # Adjust the NumPy error levels so that we know when ppf() may be suspect
-    errLevels = np.geterr()
-    np.seterr(all='raise')
-    
-    # Convert the sigma to a fraction for the high and low clip levels
-    percentClip = ( 1.0 - erf(sigma/np.sqrt(2)) ) / 2.0
-    
-    # Build the Pearson type VI distribution function - parameters then instance
-    a = _alpha(M, N)
-    b = _beta(M, N)
-    d = _delta(M, N)
-    
-    rv = betaprime(a, b, loc=d)
-    
-    # Try to get a realistic lower limit, giving up if we hit an overflow error
-    try:
-        lower = rv.ppf(percentClip)
-    except FloatingPointError:
-        lower = mean(M, N) - sigma*std(M, N)
+    with np.errstate(all='raise'):
+        # Convert the sigma to a fraction for the high and low clip levels
+        percentClip = ( 1.0 - erf(sigma/np.sqrt(2)) ) / 2.0
         
-    # Try to get a realistic upper limit, giving up if we hit an overflow error
-    try:
-        upper = rv.ppf(1.0-percentClip)
-    except FloatingPointError:
-        upper = mean(M, N) + sigma*std(M, N)
+        # Build the Pearson type VI distribution function - parameters then instance
+        a = _alpha(M, N)
+        b = _beta(M, N)
+        d = _delta(M, N)
         
-    # Restore the NumPy error levels
-    np.seterr(**errLevels)
-    
+        rv = betaprime(a, b, loc=d)
+        
+        # Try to get a realistic lower limit, giving up if we hit an overflow error
+        try:
+            lower = rv.ppf(percentClip)
+        except FloatingPointError:
+            lower = mean(M, N) - sigma*std(M, N)
+            
+        # Try to get a realistic upper limit, giving up if we hit an overflow error
+        try:
+            upper = rv.ppf(1.0-percentClip)
+        except FloatingPointError:
+            upper = mean(M, N) + sigma*std(M, N)
+            
     return lower, upper
 
 
-- 
2.43.0


From ba72c4662a3746c9e4332e49db5571a8912e724b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:47:47 +0000
Subject: [PATCH 124/185] fix: dedisperse all of the samples when the data that
 follow are given

---
 lsl/misc/dedispersion.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/lsl/misc/dedispersion.py b/lsl/misc/dedispersion.py
index 654acd6..16af7a1 100644
--- a/lsl/misc/dedispersion.py
+++ b/lsl/misc/dedispersion.py
@@ -198,7 +198,10 @@ def coherent(t, timeseries, central_freq, sample_rate, dm, taper=False, previous
         raise RuntimeWarning("Too few data samples for proper dedispersion")
         
     # Go!
-    for i in range(2*nSets+1):
+    for i in range(2*nSets+2):
+        if N//2*i >= outD.size:
+            break
+            
         start = N//2*i - N//4
         stop = start + N
         
@@ -254,7 +257,7 @@ def coherent(t, timeseries, central_freq, sample_rate, dm, taper=False, previous
             
         if i == 0 and previous_data is None:
             continue
-        if i == (2*nSets) and next_data is None:
+        if i >= (2*nSets) and next_data is None:
             continue
             
         outT[outStart:outStop] = timeOut[dataStart:dataStop]
-- 
2.43.0


From 950f29173fb99f6b403faed574e28cc703ac7ec0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:50:11 +0000
Subject: [PATCH 125/185] fix: report when no scattering time fits

---
 lsl/misc/scattering.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lsl/misc/scattering.py b/lsl/misc/scattering.py
index 13b08bd..950b142 100644
--- a/lsl/misc/scattering.py
+++ b/lsl/misc/scattering.py
@@ -214,7 +214,7 @@ def unscatter(t, raw, tScatMin, tScatMax, tScatStep, gain=0.05, max_iter=10000,
             bestTau = tScat
             
     # Make sure we have something to report
-    if tScat is None:
+    if bestTau is None:
         raise RuntimeError("No good solution found, consider changing the search range.")
         
     # Select out what we need, i.e., the best
-- 
2.43.0


From 0e400ddfa5c5cf462b8d7f45a69b8471f471dd2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:56:59 +0000
Subject: [PATCH 126/185] fix: report seconds that are out of range in
 date.load

---
 lsl/astro.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lsl/astro.py b/lsl/astro.py
index d579631..ca5ff10 100644
--- a/lsl/astro.py
+++ b/lsl/astro.py
@@ -481,7 +481,7 @@ class date(object):
         except ValueError:
             raise ValueError(f"seconds incorrectly formatted: {secondStr}")
         if second < 0.0 or second >= 60.0:
-            raise ValueError(f"seconds parameter range is [0.0, 60.0), is set to {seconds:0.3f}")
+            raise ValueError(f"seconds parameter range is [0.0, 60.0), is set to {second:0.3f}")
             
         # set attributes
         self.years = year
-- 
2.43.0


From c9b83429ae1354a94aa8d7e73fc719e8fbded755 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:56:59 +0000
Subject: [PATCH 127/185] fix: do not round the seconds when converting between
 UTC and zone dates

---
 lsl/astro.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lsl/astro.py b/lsl/astro.py
index ca5ff10..44b6350 100644
--- a/lsl/astro.py
+++ b/lsl/astro.py
@@ -1669,7 +1669,7 @@ def date_to_zonedate(date, gmtoff):
     Returns object of type zonedate representing local time.
     """
     
-    t0 = time.strptime(str(date), "%Y-%m-%d %H:%M:%S.%f")
+    t0 = (date.years, date.months, date.days, date.hours, date.minutes, int(date.seconds))
     fracSec = date.seconds - int(date.seconds)
     t1 = timegm(t0) + gmtoff
     years, months, days, hours, minutes, seconds, wday, yday, dst = time.gmtime(t1)
@@ -1694,8 +1694,8 @@ def zonedate_to_date(zonedate):
     Returns object of type date representing UTC time.
     """
     
-    t0, junk = str(zonedate).rsplit(None, 1)
-    t0 = time.strptime(t0, "%Y-%m-%d %H:%M:%S.%f")
+    t0 = (zonedate.years, zonedate.months, zonedate.days,
+          zonedate.hours, zonedate.minutes, int(zonedate.seconds))
     fracSec = zonedate.seconds - int(zonedate.seconds)
     t1 = timegm(t0) - zonedate.gmtoff
     years, months, days, hours, minutes, seconds, wday, yday, dst = time.gmtime(t1)
-- 
2.43.0


From a51c236c5535bd5d58c588f2e43c4ae33df84868 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:56:59 +0000
Subject: [PATCH 128/185] fix: keep degrees, minutes, and seconds consistent
 when splitting angles

---
 lsl/astro.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lsl/astro.py b/lsl/astro.py
index 44b6350..062687f 100644
--- a/lsl/astro.py
+++ b/lsl/astro.py
@@ -1768,9 +1768,9 @@ def _float_to_sexa(value):
         sgn = -1.0
         value *= -1
         
-    d = int(value)
-    m = int(value * 60) % 60
-    s = (value * 3600.0) % 60.0
+    # Split the total number of seconds so that the three parts stay consistent
+    m, s = divmod(value * 3600.0, 60.0)
+    d, m = divmod(int(m), 60)
     
     return sgn, d, m, s
 
-- 
2.43.0


From f1a1f25245ab555d55e0ad0c74478c7c5480fe62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:56:59 +0000
Subject: [PATCH 129/185] fix: keep sums of hours, minutes, and seconds in
 range and store the hours

---
 lsl/astro.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lsl/astro.py b/lsl/astro.py
index 062687f..1d489cc 100644
--- a/lsl/astro.py
+++ b/lsl/astro.py
@@ -1845,8 +1845,8 @@ def deg_to_hms(degrees):
     Returns object of type hms representing angle.
     """
     
-    sgn,h,m,s = _float_to_sexa(degrees / 15.0)
-    return hms(h, m, s)
+    sgn,h,m,s = _float_to_sexa(range_degrees(degrees) / 15.0)
+    return hms(h % 24, m, s)
 
 
 def rad_to_hms(radians):
@@ -1892,7 +1892,7 @@ def add_hms(source, dest):
     degrees1 += degrees2
     _hms = deg_to_hms(degrees1)
     
-    dest.degrees = 1*_hms.hours
+    dest.hours = 1*_hms.hours
     dest.minutes = 1*_hms.minutes
     dest.seconds = 1*_hms.seconds
     
-- 
2.43.0


From cd425967ee3eb4d60a742ab901c6d1292390d651 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:56:59 +0000
Subject: [PATCH 130/185] fix: find the day of the week at midnight

---
 lsl/astro.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lsl/astro.py b/lsl/astro.py
index 1d489cc..3365d12 100644
--- a/lsl/astro.py
+++ b/lsl/astro.py
@@ -1996,7 +1996,7 @@ def get_day_of_week(date):
     """
     
     jd = date.to_jd()
-    return (int(round(jd)) + 1) % 7
+    return (int(math.floor(jd + 0.5)) + 1) % 7
 
 
 def get_julian_from_sys():
-- 
2.43.0


From 0e8e279ff42667c5b2010ad574744c07639a9b2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:56:59 +0000
Subject: [PATCH 131/185] fix: keep negative multiples of 24 hours in range

---
 lsl/astro.py | 10 +---------
 1 file changed, 1 insertion(+), 9 deletions(-)

diff --git a/lsl/astro.py b/lsl/astro.py
index 3365d12..16d17de 100644
--- a/lsl/astro.py
+++ b/lsl/astro.py
@@ -2897,15 +2897,7 @@ def range_hours(hours):
     Put an hour time value into the correct range [0.0, 24.0].
     """
     
-    if (hours >= 0.0) and (hours < 24.0):
-        return hours
-        
-    temp = int(hours / 24)
-    if hours < 0.0:
-        temp -= 1
-    temp *= 24
-    
-    return hours - temp
+    return hours % 24
 
 
 def jd_to_mjd(jd):
-- 
2.43.0


From 2c65a80f314eb2e45a9cc603860e477ee29caeb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:56:59 +0000
Subject: [PATCH 132/185] fix: convert TT and not TAI to TDB

---
 lsl/astro.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lsl/astro.py b/lsl/astro.py
index 16d17de..f562c42 100644
--- a/lsl/astro.py
+++ b/lsl/astro.py
@@ -3122,7 +3122,7 @@ def tt_to_tdb(ttJD):
     Returns: The TDB JD value (float).
     """    
     
-    t = AstroTime(ttJD, format='jd', scale='tai')
+    t = AstroTime(ttJD, format='jd', scale='tt')
     return t.tdb.jd  
 
 
-- 
2.43.0


From 2a5a61f90ef71948899410f84c9b5baef581d1b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:56:59 +0000
Subject: [PATCH 133/185] fix: build the positions for separations and position
 angles

---
 lsl/astro.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lsl/astro.py b/lsl/astro.py
index f562c42..8b1afb2 100644
--- a/lsl/astro.py
+++ b/lsl/astro.py
@@ -2270,11 +2270,11 @@ def get_angular_separation(posn1, posn2):
     sc1 = posn1.astropy
     if sc1 is None:
         sc1 = SkyCoord(posn1.ra*astrounits.deg, posn1.dec*astrounits.deg,
-                       format='fk5', equinox='J2000')
+                       frame='fk5', equinox='J2000')
     sc2 = posn2.astropy
     if sc2 is None:
         sc2 = SkyCoord(posn2.ra*astrounits.deg, posn2.dec*astrounits.deg,
-                       format='fk5', equinox='J2000')
+                       frame='fk5', equinox='J2000')
         
     sep = sc1.separation(sc2)
     
@@ -2294,11 +2294,11 @@ def get_rel_posn_angle(posn1, posn2):
     sc1 = posn1.astropy
     if sc1 is None:
         sc1 = SkyCoord(posn1.ra*astrounits.deg, posn1.dec*astrounits.deg,
-                       format='fk5', equinox='J2000')
+                       frame='fk5', equinox='J2000')
     sc2 = posn2.astropy
     if sc2 is None:
         sc2 = SkyCoord(posn2.ra*astrounits.deg, posn2.dec*astrounits.deg,
-                       format='fk5', equinox='J2000')
+                       frame='fk5', equinox='J2000')
         
     pa = sc1.position_angle(sc2)
     
-- 
2.43.0


From dcb4b56f0e81be40736722268328743a5a5d7329 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:56:59 +0000
Subject: [PATCH 134/185] fix: allow positions that come from bare frames to be
 converted further

---
 lsl/astro.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/lsl/astro.py b/lsl/astro.py
index 8b1afb2..295a8a7 100644
--- a/lsl/astro.py
+++ b/lsl/astro.py
@@ -923,7 +923,9 @@ class equ_posn(object):
         if isinstance(value, SkyCoord):
             if not isinstance(value.frame, (ICRS, FK4, FK5, PrecessedGeocentric)):
                 raise TypeError("Expected a SkyCoord in the frame of ICRS, FK4, FK5, or PrecessedGeocentric")
-                
+        else:
+            value = SkyCoord(value)
+            
         _posn = kls()
         _posn._astropy = value
         _posn._ra = value.ra.deg
@@ -2121,9 +2123,9 @@ def get_ecl_from_rect(rect):
     y = rect.Y
     z = rect.Z
     
-    sc = GeocentricTrueEcliptic(CartesianRepresentation(x*astrounits.au, y*astrounits.au, z*astrounits.au),
-                                equinox='J2000')
-
+    sc = SkyCoord(GeocentricTrueEcliptic(CartesianRepresentation(x*astrounits.au, y*astrounits.au, z*astrounits.au),
+                                         equinox='J2000'))
+    
     return ecl_posn.from_astropy(sc)
 
 
-- 
2.43.0


From 3b2217acb9a637e967cac94755f4c58b15c0e82d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:56:59 +0000
Subject: [PATCH 135/185] fix: accept dms objects for the galactic longitude

---
 lsl/astro.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lsl/astro.py b/lsl/astro.py
index 295a8a7..5212bbf 100644
--- a/lsl/astro.py
+++ b/lsl/astro.py
@@ -1214,7 +1214,7 @@ class gal_posn(object):
         if self.astropy is not None:
             raise RuntimeError("Cannot set l when this.astropy is not None")
             
-        if isinstance(value, hms):
+        if isinstance(value, dms):
             value = value.to_deg()
         if value < -360.0 or value >= 360.0:
             raise ValueError(f"l parameter range is [-360.0, 360.0), is set to {value:0.3f}")
-- 
2.43.0


From b641c107715f0866ee5a2de240c9d09076674b2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:57:40 +0000
Subject: [PATCH 136/185] fix: apply the proper motion when finding apparent
 positions

---
 lsl/astro.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/lsl/astro.py b/lsl/astro.py
index 5212bbf..06a4529 100644
--- a/lsl/astro.py
+++ b/lsl/astro.py
@@ -2340,9 +2340,16 @@ def get_apparent_posn(mean_position, jD, proper_motion = None):
     sc = mean_position.astropy
     if sc is None:
         sc = SkyCoord(mean_position.ra*astrounits.deg, mean_position.dec*astrounits.deg,
-                      pm_ra_cosdec=proper_motion[0]*math.cos(proper_motion[1]/1000/3600*math.pi/180)*astrounits.mas/astrounits.yr,
-                      pm_dec= proper_motion[1]*astrounits.mas/astrounits.yr,
                       frame='fk5', equinox='J2000')
+    if proper_motion[0] != 0 or proper_motion[1] != 0:
+        # Move the object from where it was at J2000
+        pm_ra_cosdec = proper_motion[0]*math.cos(mean_position.dec*math.pi/180)
+        sc = SkyCoord(mean_position.ra*astrounits.deg, mean_position.dec*astrounits.deg,
+                      pm_ra_cosdec=pm_ra_cosdec*astrounits.mas/astrounits.yr,
+                      pm_dec=proper_motion[1]*astrounits.mas/astrounits.yr,
+                      frame=sc.frame.replicate_without_data(), obstime='J2000')
+        moved = sc.apply_space_motion(new_obstime=t)
+        sc = SkyCoord(moved.ra, moved.dec, frame=sc.frame.replicate_without_data())
     sc = sc.transform_to(PrecessedGeocentric(equinox=t, obstime=t))
     
     return equ_posn.from_astropy(sc)
-- 
2.43.0


From 9358d7baa53ab4d74c1a306eeee136a6ba1c2616 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:58:19 +0000
Subject: [PATCH 137/185] fix: find when objects rise, transit, and set for all
 declinations and latitudes

---
 lsl/astro.py | 173 ++++++++++++++++++++++++---------------------------
 1 file changed, 81 insertions(+), 92 deletions(-)

diff --git a/lsl/astro.py b/lsl/astro.py
index 06a4529..14ac85f 100644
--- a/lsl/astro.py
+++ b/lsl/astro.py
@@ -14,7 +14,6 @@ from datetime import datetime
 from xml.etree import ElementTree
 from functools import total_ordering
 
-from scipy.interpolate import interp1d
 
 from astropy import units as astrounits
 from astropy.time import Time as AstroTime
@@ -2408,6 +2407,42 @@ def get_equ_prec2(mean_position, fromJD, toJD):
 # Rise, Set, Transit functions
 ######################################################################
 
+def _find_horizon(obstime, alt, rising=True, after=-np.inf):
+    """
+    Given a set of times and the altitude of a target at those times,
+    interpolate to find the first time after the specified time when the target
+    rises or sets.
+    
+    Returns: Time of the rise or the set or None if there is none.
+    """
+    
+    if not rising:
+        alt = -alt
+    for i in np.where((alt[:-1] < 0) & (alt[1:] >= 0))[0]:
+        t = obstime[i] - alt[i]*(obstime[i+1] - obstime[i])/(alt[i+1] - alt[i])
+        if t >= after:
+            return t
+    return None
+
+
+def _find_transit(obstime, alt, after=-np.inf):
+    """
+    Given a set of times and the altitude of a target at those times, fit
+    parabolas to find the first time after the specified time when the altitude
+    is the largest.
+    
+    Returns: Time of the transit or None if there is none.
+    """
+    
+    for i in np.where((alt[1:-1] > alt[:-2]) & (alt[1:-1] >= alt[2:]))[0] + 1:
+        t = obstime[i-1:i+2] - obstime[i]
+        fit = np.polyfit(t, alt[i-1:i+2], 2)
+        t = obstime[i] - fit[1]/(2*fit[0])
+        if t >= after:
+            return t
+    return None
+
+
 def get_object_rst(jD, observer, target):
     """
     Get rise, set, and transit times of a celstial object.
@@ -2434,64 +2469,43 @@ def get_object_rst(jD, observer, target):
         sc = SkyCoord(target.ra*astrounits.deg, target.dec*astrounits.deg,
                       frame='fk5', equinox='J2000')
         
-    # Part 1 - Course +/1 day search for the anti-transits
-    t = AstroTime(jD+np.linspace(-1, 1, 192), format='jd', scale='utc')
+    # Part 1 - Course search for the next rise, set, and transit times
+    # Note:  We are trying to emulate ephem.Observer.next_() so we want the next
+    #        rising/setting/transit.
+    t = AstroTime(jD+np.arange(-1, 108)*15/1440, format='jd', scale='utc')
     aa = AltAz(location=el, obstime=t)
     aa = sc.transform_to(aa)
-    antitransits = np.where(np.diff(aa.az[...].deg) < -180)[0]
-    if len(antitransits) == 0:
-        # No anti-transits = it never rises or never sets
+    rise = _find_horizon(aa.obstime.jd, aa.alt.deg, after=jD)
+    set = _find_horizon(aa.obstime.jd, aa.alt.deg, rising=False, after=jD)
+    transit = _find_transit(aa.obstime.jd, aa.alt.deg, after=jD)
+    if rise is None or set is None or transit is None:
+        # It never rises or never sets
         return None
         
-    # Part 2 - Determine the approximate rise, set, and transit times
-    #          based on when the source is up.
-    above = np.where(aa.alt[antitransits[0]:antitransits[1]] >= 0)[0]
-    rise = above[0] + antitransits[0]
-    set = above[-1] + antitransits[0]
-    transit = (rise + set) // 2
+    # Part 2 - Refine the rough values found in the course search.
+    tr = AstroTime(rise+np.linspace(-20, 20, 41)/1440, format='jd', scale='utc')
+    ts = AstroTime(set+np.linspace(-20, 20, 41)/1440, format='jd', scale='utc')
+    tt = AstroTime(transit+np.linspace(-20, 20, 41)/1440, format='jd', scale='utc')
     
-    # Part 3 - Refine the rough values found in the course search.
-    # Note:  We are trying to emulate ephem.Observer.next_() so we want the next
-    #        rising/setting/transit.
-    offset = 0
-    if aa.obstime[rise].jd < jD:
-        offset = 1
-    tr = AstroTime(aa.obstime[rise].jd+np.linspace(offset-20/1440, offset+20/1440, 41), format='jd', scale='utc')
-    offset = 0
-    if aa.obstime[set].jd < jD:
-        offset = 1
-    ts = AstroTime(aa.obstime[set].jd+np.linspace(offset-20/1440, offset+20/1440, 41), format='jd', scale='utc')
-    offset = 0
-    if aa.obstime[transit].jd < jD:
-        offset = 1
-    tt = AstroTime(aa.obstime[transit].jd+np.linspace(offset-20/1440, offset+20/1440, 41), format='jd', scale='utc')
-    
-    # Part 3a - Rise time via interpolation to find the zero crossing
+    # Part 2a - Rise time via interpolation to find the zero crossing
     aa = AltAz(location=el, obstime=tr)
     aa = sc.transform_to(aa)
-    rtf = interp1d(aa.alt, aa.obstime.jd)
-    try:
-        tr = rtf(0.0)
-    except ValueError:
+    tr = _find_horizon(aa.obstime.jd, aa.alt.deg)
+    if tr is None:
         return None
         
-    # Part 3b - Set time via interpolation to find the zero crossing
+    # Part 2b - Set time via interpolation to find the zero crossing
     aa = AltAz(location=el, obstime=ts)
     aa = sc.transform_to(aa)
-    stf = interp1d(aa.alt, aa.obstime.jd)
-    try:
-        ts = stf(0.0)
-    except ValueError:
+    ts = _find_horizon(aa.obstime.jd, aa.alt.deg, rising=False)
+    if ts is None:
         return None
         
-    # Part 3c - Transit time via fitting a cubic to the altitude as a function
-    #           of time.
+    # Part 2c - Transit time via fitting a parabola to the altitude as a
+    #           function of time.
     aa = AltAz(location=el, obstime=tt)
     aa = sc.transform_to(aa)
-    ttf = np.polyfit(aa.obstime.jd-aa.obstime.jd[np.argmax(aa.alt)], aa.alt, 3)
-    tt = -ttf[1] - np.sqrt(ttf[1]**2 - 4*ttf[0]*ttf[2])
-    tt /= 2*ttf[0]
-    tt += aa.obstime.jd[np.argmax(aa.alt)]
+    tt = _find_transit(aa.obstime.jd, aa.alt.deg)
     
     _rst.rise = tr
     _rst.transit = tt
@@ -2523,76 +2537,51 @@ def _get_solar_system_rst(jD, observer, body):
                                      height=elv*astrounits.m,
                                      ellipsoid='WGS84')
         
-    # Part 1 - Course +/1 day search for the anti-transits
-    t = AstroTime(jD+np.linspace(-1, 1, 192), format='jd', scale='utc')
+    # Part 1 - Course search for the next rise, set, and transit times
+    # Note:  We are trying to emulate ephem.Observer.next_() so we want the next
+    #        rising/setting/transit.
+    t = AstroTime(jD+np.arange(-1, 108)*15/1440, format='jd', scale='utc')
     with solar_system_ephemeris.set(SOLAR_SYSTEM_EPHEMERIS_TO_USE):
         sc = get_body(body, t, location=el)
         aa = AltAz(location=el, obstime=t)
         aa = sc.transform_to(aa)
-    antitransits = np.where(np.diff(aa.az[...].deg) < -180)[0]
-    if len(antitransits) == 0:
-        # No anti-transits = it never rises or never sets
+    rise = _find_horizon(aa.obstime.jd, aa.alt.deg, after=jD)
+    set = _find_horizon(aa.obstime.jd, aa.alt.deg, rising=False, after=jD)
+    transit = _find_transit(aa.obstime.jd, aa.alt.deg, after=jD)
+    if rise is None or set is None or transit is None:
+        # It never rises or never sets
         return None
         
-    # Part 2 - Determine the approximate rise, set, and transit times
-    #          based on when the source is up.
-    try:
-        above = np.where(aa.alt[antitransits[0]:antitransits[1]] >= 0)[0]
-    except IndexError:
-        above = np.where(aa.alt[antitransits[0]:] >= 0)[0]
-    rise = above[0] + antitransits[0]
-    set = above[-1] + antitransits[0]
-    transit = (rise + set) // 2
-    
-    # Part 3 - Refine the rough values found in the course search.
-    # Note:  We are trying to emulate ephem.Observer.next_() so we want the next
-    #        rising/setting/transit.
-    scale = 20 if body != 'moon' else 60
-    offset = 0
-    if aa.obstime[rise].jd < jD:
-        offset = 1
-    tr = AstroTime(aa.obstime[rise].jd+np.linspace(offset-scale/1440, offset+scale/1440, 2*scale+1), format='jd', scale='utc')
-    offset = 0
-    if aa.obstime[set].jd < jD:
-        offset = 1
-    ts = AstroTime(aa.obstime[set].jd+np.linspace(offset-scale/1440, offset+scale/1440, 2*scale+1), format='jd', scale='utc')
-    offset = 0
-    if aa.obstime[transit].jd < jD:
-        offset = 1
-    tt = AstroTime(aa.obstime[transit].jd+np.linspace(offset-scale/1440, offset+scale/1440, 2*scale+1), format='jd', scale='utc')
-    
-    # Part 3a - Rise time via interpolation to find the zero crossing
+    # Part 2 - Refine the rough values found in the course search.
+    tr = AstroTime(rise+np.linspace(-20, 20, 41)/1440, format='jd', scale='utc')
+    ts = AstroTime(set+np.linspace(-20, 20, 41)/1440, format='jd', scale='utc')
+    tt = AstroTime(transit+np.linspace(-20, 20, 41)/1440, format='jd', scale='utc')
+    
+    # Part 2a - Rise time via interpolation to find the zero crossing
     with solar_system_ephemeris.set(SOLAR_SYSTEM_EPHEMERIS_TO_USE):
         sc = get_body(body, tr, location=el)
         aa = AltAz(location=el, obstime=tr)
         aa = sc.transform_to(aa)
-    rtf = interp1d(aa.alt, aa.obstime.jd)
-    try:
-        tr = rtf(0.0)
-    except ValueError:
+    tr = _find_horizon(aa.obstime.jd, aa.alt.deg)
+    if tr is None:
         return None
         
-    # Part 3b - Set time via interpolation to find the zero crossing
+    # Part 2b - Set time via interpolation to find the zero crossing
     with solar_system_ephemeris.set(SOLAR_SYSTEM_EPHEMERIS_TO_USE):
         sc = get_body(body, ts, location=el)
         aa = AltAz(location=el, obstime=ts)
         aa = sc.transform_to(aa)
-    stf = interp1d(aa.alt, aa.obstime.jd)
-    try:
-        ts = stf(0.0)
-    except ValueError:
+    ts = _find_horizon(aa.obstime.jd, aa.alt.deg, rising=False)
+    if ts is None:
         return None
         
-    # Part 3c - Transit time via fitting a cubic to the altitude as a function
-    #           of time.
+    # Part 2c - Transit time via fitting a parabola to the altitude as a
+    #           function of time.
     with solar_system_ephemeris.set(SOLAR_SYSTEM_EPHEMERIS_TO_USE):
         sc = get_body(body, tt, location=el)
         aa = AltAz(location=el, obstime=tt)
         aa = sc.transform_to(aa)
-    ttf = np.polyfit(aa.obstime.jd-aa.obstime.jd[np.argmax(aa.alt)], aa.alt, 3)
-    tt = -ttf[1] - np.sqrt(ttf[1]**2 - 4*ttf[0]*ttf[2])
-    tt /= 2*ttf[0]
-    tt += aa.obstime.jd[np.argmax(aa.alt)]
+    tt = _find_transit(aa.obstime.jd, aa.alt.deg)
     
     _rst.rise = tr
     _rst.transit = tt
-- 
2.43.0


From f9b71db0123ec0ccb318c28149b4a68306648e7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:59:32 +0000
Subject: [PATCH 138/185] fix: keep the sub-second part of times given as DP
 samples

---
 lsl/transform.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lsl/transform.py b/lsl/transform.py
index 4e390c2..2b71041 100644
--- a/lsl/transform.py
+++ b/lsl/transform.py
@@ -223,14 +223,15 @@ class Time(object):
         
     @property
     def utc_dp(self):
-        return int(self._time.utc.unix * fS)
+        return int(round(self._time.utc.to_value('unix', subfmt='long') * int(fS)))
         
     @utc_dp.setter
     def utc_dp(self, value):
         if not isinstance(value, int):
             raise TypeError("value must be type int")
             
-        self._time = AstroTime(value // fS, value % fS, format='unix', scale='utc')
+        sec, samples = divmod(value, int(fS))
+        self._time = AstroTime(sec, samples / fS, format='unix', scale='utc')
         
     @property
     def utc_mcs(self):
-- 
2.43.0


From a047b8168e9dbbf198f60ae91fe8b71e53bddb7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:59:32 +0000
Subject: [PATCH 139/185] fix: carry milliseconds past midnight that round up
 into the next MJD

---
 lsl/transform.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lsl/transform.py b/lsl/transform.py
index 2b71041..f4ecca2 100644
--- a/lsl/transform.py
+++ b/lsl/transform.py
@@ -237,6 +237,9 @@ class Time(object):
     def utc_mcs(self):
         mjd = int(self.utc_mjd)
         mpm = int(round((self.utc_mjd - mjd) * 86400 * 1000))
+        if mpm >= 86400000:
+            mjd += 1
+            mpm -= 86400000
         return (mjd, mpm)
         
     @utc_mcs.setter
-- 
2.43.0


From 26dfc32af9f4e0a5108f52be932dfcc09bf9e6df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:12:10 +0000
Subject: [PATCH 140/185] fix: refuse NaNs where the parser asks for positive
 floats

---
 lsl/misc/parser.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lsl/misc/parser.py b/lsl/misc/parser.py
index 9cabf38..2c1b275 100644
--- a/lsl/misc/parser.py
+++ b/lsl/misc/parser.py
@@ -64,8 +64,8 @@ def positive_or_zero_float(string):
     except ValueError:
         msg = f"{string} is a non-float value"
         raise ArgumentTypeError(msg)
-    if value < 0.0:
-        msg = f"{string} < 0.0"
+    if not value >= 0.0:
+        msg = f"{string} is not >= 0.0"
         raise ArgumentTypeError(msg)
     return value
 
-- 
2.43.0


From 5ac6641f415abe95eaebd7bb14b5a9b30ed515bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:12:10 +0000
Subject: [PATCH 141/185] fix: report empty hours and degrees as argument
 errors

---
 lsl/misc/parser.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/lsl/misc/parser.py b/lsl/misc/parser.py
index 2c1b275..168bd41 100644
--- a/lsl/misc/parser.py
+++ b/lsl/misc/parser.py
@@ -396,6 +396,8 @@ def hours(string):
     """
     
     try:
+        if string.strip() == '':
+            raise ValueError("empty string")
         value = ephem.hours(string)
     except ValueError as e:
         msg = f"{str(e)}: {string}"
@@ -410,7 +412,7 @@ def csv_hours_list(string):
     """
     
     string = string.rstrip()
-    if string[-1] == ',':
+    if string.endswith(','):
         string = string[:-1]
         
     value = []
@@ -425,6 +427,8 @@ def degrees(string):
     """
     
     try:
+        if string.strip() == '':
+            raise ValueError("empty string")
         value = ephem.degrees(string)
     except ValueError as e:
         msg = f"{str(e)}: {string}"
@@ -439,7 +443,7 @@ def csv_degrees_list(string):
     """
     
     string = string.rstrip()
-    if string[-1] == ',':
+    if string.endswith(','):
         string = string[:-1]
         
     value = []
-- 
2.43.0


From 8b8f465a0bd6c7805334ad7333d0f3d3fed9a60e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:12:10 +0000
Subject: [PATCH 142/185] fix: report MJDs that are too large as argument
 errors

---
 lsl/misc/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lsl/misc/parser.py b/lsl/misc/parser.py
index 168bd41..b0cbc2c 100644
--- a/lsl/misc/parser.py
+++ b/lsl/misc/parser.py
@@ -306,7 +306,7 @@ def date(string):
     try:
         mjd = int(string, 10)
         dt = mjdmpm_to_datetime(mjd, 0)
-    except ValueError:
+    except (ValueError, OverflowError):
         cstring = string.replace('-', '/')
         try:
             dt = datetime.strptime("%s 00:00:00" % cstring, "%Y/%m/%d %H:%M:%S")
-- 
2.43.0


From bfc4787ec81f490cc59f5202e3e81d6655d4c2d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:12:10 +0000
Subject: [PATCH 143/185] fix: keep leading zeros and digits inside of host
 names when expanding ranges

---
 lsl/misc/parser.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lsl/misc/parser.py b/lsl/misc/parser.py
index b0cbc2c..842420c 100644
--- a/lsl/misc/parser.py
+++ b/lsl/misc/parser.py
@@ -525,7 +525,7 @@ def csv_baseline_list(string):
 _IPV4_RANGE_RE = re.compile(r'^(?P<byte1>\d{1,3})(~(?P<byte1e>\d{1,3}))?\.(?P<byte2>\d{1,3})(~(?P<byte2e>\d{1,3}))?\.(?P<byte3>\d{1,3})(~(?P<byte3e>\d{1,3}))?\.(?P<byte4>\d{1,3})(~(?P<byte4e>\d{1,3}))?$')
 
 _HOSTNAME_RE = re.compile(r'^(?P<hostname>[a-zA-Z0-9-]*?)$')
-_HOSTNAME_RANGE_RE=re.compile(r'^(?P<hostbase>[a-zA-Z-]*?)(?P<start>[0-9]+)~(?P<stop>[0-9]+)$')
+_HOSTNAME_RANGE_RE=re.compile(r'^(?P<hostbase>[a-zA-Z0-9-]*?)(?P<start>[0-9]+)~(?P<stop>[0-9]+)$')
     
 
 def csv_hostname_list(string):
@@ -578,7 +578,8 @@ def csv_hostname_list(string):
                 except ValueError:
                     msg = f"{string} contains non-integer hostname values"
                     raise ArgumentTypeError(msg)
-                items = ['%s%i' % (hostbase, i) for i in range(start, stop+1)]
+                width = len(mtch.group('start'))
+                items = ['%s%0*i' % (hostbase, width, i) for i in range(start, stop+1)]
             else:
                 mtch = _HOSTNAME_RE.match(item)
                 if mtch is not None:
-- 
2.43.0


From 3ec1b457511deaab35c37b5a618b5e9215e0b905 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:12:10 +0000
Subject: [PATCH 144/185] fix: refuse IPv4 addresses with bytes above 255

---
 lsl/misc/parser.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lsl/misc/parser.py b/lsl/misc/parser.py
index 842420c..cf6824e 100644
--- a/lsl/misc/parser.py
+++ b/lsl/misc/parser.py
@@ -561,6 +561,10 @@ def csv_hostname_list(string):
             b4e = mtch.group('byte4e')
             b4e = int(b4e, 10) if b4e is not None else b4b
             
+            if max([b1b, b1e, b2b, b2e, b3b, b3e, b4b, b4e]) > 255:
+                msg = f"{string} contains invalid IPv4 addresses"
+                raise ArgumentTypeError(msg)
+                
             items = []
             for b1 in range(b1b, b1e+1):
                 for b2 in range(b2b, b2e+1):
-- 
2.43.0


From ad72baff4f74b8ee7c2fe5bcedb5533284531603 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:13:33 +0000
Subject: [PATCH 145/185] fix: replace or remove the default console handler of
 the logger

---
 lsl/logger.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lsl/logger.py b/lsl/logger.py
index 1472c7b..5b18a01 100644
--- a/lsl/logger.py
+++ b/lsl/logger.py
@@ -49,7 +49,7 @@ LSL_LOGGER.setLevel(logging.INFO)
 LSL_LOGGER.debug(f"LSL {full_version}")
 
 # Track console and file handlers
-_console_handler = None
+_console_handler = _LSL_LOG_HANDLER
 _file_handler = None
 _active_filters = {}
 
-- 
2.43.0


From c0dac16cd7b5483ebf5a82648f96d3a60bef91f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:13:33 +0000
Subject: [PATCH 146/185] fix: match log filters against the LSL module that
 logs

---
 lsl/logger.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/lsl/logger.py b/lsl/logger.py
index 5b18a01..e7c2b92 100644
--- a/lsl/logger.py
+++ b/lsl/logger.py
@@ -4,6 +4,7 @@ Provides a shared logger instance, threaded handler support for GUI
 integration, and convenience functions for console/file logging.
 """
 
+import os
 import sys
 import queue
 import fnmatch
@@ -53,6 +54,9 @@ _console_handler = _LSL_LOG_HANDLER
 _file_handler = None
 _active_filters = {}
 
+# Where LSL is, for finding module names
+_LSL_PATH = os.path.dirname(os.path.abspath(__file__))
+
 
 def make_note(msg, *args, **kwds):
     """
@@ -244,7 +248,14 @@ class _ModuleFilter(logging.Filter):
         Supports wildcards: '*' matches any sequence, '?' matches one character.
         """
         
-        return fnmatch.fnmatch(record.name, self.pattern)
+        if fnmatch.fnmatch(record.name, self.pattern):
+            return True
+            
+        # All of LSL logs through LSL_LOGGER so also look at which LSL module
+        # the record comes from
+        path = os.path.splitext(os.path.abspath(record.pathname))[0]
+        path = os.path.relpath(path, os.path.dirname(_LSL_PATH))
+        return fnmatch.fnmatch(path.replace(os.sep, '.'), self.pattern)
 
 
 def add_filter(pattern):
-- 
2.43.0


From aabb2ce910436e94b24b4966a4aa5b719b2ff8a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:13:33 +0000
Subject: [PATCH 147/185] fix: obey the log level when warnings are captured

---
 lsl/logger.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lsl/logger.py b/lsl/logger.py
index e7c2b92..48eba78 100644
--- a/lsl/logger.py
+++ b/lsl/logger.py
@@ -137,6 +137,9 @@ class _WarningHandler(logging.Handler):
         
         from lsl.common.color import uncolorfy
         
+        if not LSL_LOGGER.isEnabledFor(record.levelno):
+            return
+            
         record.msg = uncolorfy(record.msg)
         LSL_LOGGER.handle(record)
 
-- 
2.43.0


From b89bfc6ed777240829746833487c453654b36be8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:13:33 +0000
Subject: [PATCH 148/185] fix: keep logging to the old file if the new one
 cannot be opened

---
 lsl/logger.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/lsl/logger.py b/lsl/logger.py
index 48eba78..5751a0d 100644
--- a/lsl/logger.py
+++ b/lsl/logger.py
@@ -207,14 +207,17 @@ def enable_file_logging(filename, level=None, mode='a'):
 
     global _file_handler, LSL_LOGGER
 
+    # Open the new file first so that the old one stays in use if that fails
+    new_handler = logging.FileHandler(filename, mode=mode)
+    
     # Remove existing file handler if present
     if _file_handler is not None:
         warnings.warn(f"Closing existing log file '{_file_handler.baseFilename}' and switching to '{filename}'", RuntimeWarning)
         LSL_LOGGER.removeHandler(_file_handler)
         _file_handler.close()
 
-    # Create and configure new file handler
-    _file_handler = logging.FileHandler(filename, mode=mode)
+    # Configure the new file handler
+    _file_handler = new_handler
     _file_handler.setFormatter(LSL_LOG_FORMAT)
 
     if level is not None:
-- 
2.43.0


From 616e3d2520d49a809706a05f31bc4ae6396b9cc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:15:15 +0000
Subject: [PATCH 149/185] fix: stay silent when console logging is disabled and
 there is no other handler

---
 lsl/logger.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lsl/logger.py b/lsl/logger.py
index 5751a0d..91b1daa 100644
--- a/lsl/logger.py
+++ b/lsl/logger.py
@@ -46,6 +46,7 @@ LSL_LOG_QUEUE = queue.Queue()
 _LSL_LOG_HANDLER = logging.StreamHandler(sys.stderr)
 _LSL_LOG_HANDLER.setFormatter(LSL_LOG_FORMAT)
 LSL_LOGGER.addHandler(_LSL_LOG_HANDLER)
+LSL_LOGGER.addHandler(logging.NullHandler())    # For when there is no other handler
 LSL_LOGGER.setLevel(logging.INFO)
 LSL_LOGGER.debug(f"LSL {full_version}")
 
-- 
2.43.0


From 63289a5ecd6922235b01b290cfa43bb341a69678 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:29:55 +0000
Subject: [PATCH 150/185] fix: name the LR polarization of SDFITS files

---
 lsl/writer/sdfits.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lsl/writer/sdfits.py b/lsl/writer/sdfits.py
index 0de1136..b018390 100644
--- a/lsl/writer/sdfits.py
+++ b/lsl/writer/sdfits.py
@@ -39,7 +39,7 @@ STOKES_CODES = { 'I':  1,  'Q': 2,   'U':  3,  'V':  4,
                 'XX': -5, 'YY': -6, 'XY': -7, 'YX': -8}
 
 NUMERIC_STOKES = { 1: 'I',   2: 'Q',   3: 'U',   4: 'V', 
-                  -1: 'RR', -2: 'LL', -3: 'RL', -4: 'RL', 
+                  -1: 'RR', -2: 'LL', -3: 'RL', -4: 'LR', 
                   -5: 'XX', -6: 'YY', -7: 'XY', -8: 'YX'}
 
 
-- 
2.43.0


From c1b17ab4c3ff63cb1be91d3660d1a50105ad5623 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:29:55 +0000
Subject: [PATCH 151/185] fix: sort SDFITS spectra by time and then
 polarization for short integrations

---
 lsl/writer/sdfits.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lsl/writer/sdfits.py b/lsl/writer/sdfits.py
index b018390..28aa488 100644
--- a/lsl/writer/sdfits.py
+++ b/lsl/writer/sdfits.py
@@ -160,8 +160,8 @@ class Sd(WriterBase):
             polarization code.
             """
             
-            xID = x.obsTime*10000000 + abs(x.pol)
-            yID = y.obsTime*10000000 + abs(y.pol)
+            xID = (x.obsTime, abs(x.pol))
+            yID = (y.obsTime, abs(y.pol))
             
             if xID > yID:
                 return 1
-- 
2.43.0


From 4dbc03624bd7991f0af02703ec0452c01b66f9e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:29:55 +0000
Subject: [PATCH 152/185] fix: do not mix SDFITS spectra when a polarization is
 missing

---
 lsl/writer/sdfits.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/lsl/writer/sdfits.py b/lsl/writer/sdfits.py
index 28aa488..63900e7 100644
--- a/lsl/writer/sdfits.py
+++ b/lsl/writer/sdfits.py
@@ -173,6 +173,15 @@ class Sd(WriterBase):
         # Sort the data set
         self.data.sort(key=cmp_to_key(__sortData))
         
+        # Make sure that every polarization is there once at every time
+        for i,dataSet in enumerate(self.data):
+            if i % self.nStokes == 0:
+                obsTime = dataSet.obsTime
+            if dataSet.pol != self.stokes[i % self.nStokes] or dataSet.obsTime != obsTime:
+                raise RuntimeError(f"Polarizations do not match at TAI MJD {obsTime}")
+        if len(self.data) % self.nStokes != 0:
+            raise RuntimeError(f"Polarizations do not match at TAI MJD {obsTime}")
+            
         self._write_primary_hdu()
         self._write_singledish_hdu()
         
-- 
2.43.0


From 922e581851da20e22e5c9be4d2de5c51e7889ef5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:29:55 +0000
Subject: [PATCH 153/185] fix: label the polarizations of SDFITS files that are
 not adjacent

---
 lsl/writer/sdfits.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lsl/writer/sdfits.py b/lsl/writer/sdfits.py
index 63900e7..47bdd15 100644
--- a/lsl/writer/sdfits.py
+++ b/lsl/writer/sdfits.py
@@ -473,7 +473,9 @@ class Sd(WriterBase):
         sd.header['CRVAL1'] = self.refVal
         ### Stokes
         sd.header['CTYPE2'] = ('STOKES', 'axis 2 is STOKES axis (polarization)')
-        if self.stokes[0] < 0:
+        if self.nStokes > 1:
+            sd.header['CDELT2'] = float(self.stokes[1] - self.stokes[0])
+        elif self.stokes[0] < 0:
             sd.header['CDELT2'] = -1.0
         else:
             sd.header['CDELT2'] = 1.0
-- 
2.43.0


From 0b55a8915c153b194722ed8d2c8d6773c1b9678f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:29:55 +0000
Subject: [PATCH 154/185] fix: carry VDIF frame numbers that round up into the
 next second

---
 lsl/writer/vdif.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lsl/writer/vdif.py b/lsl/writer/vdif.py
index 596137a..fea4880 100644
--- a/lsl/writer/vdif.py
+++ b/lsl/writer/vdif.py
@@ -96,6 +96,12 @@ class Frame(object):
         frame = (epochSeconds.sec - self.seconds) * (self.sample_rate/(len(self.data)//(2-self.dataReal)))
         self.frame = int(round(frame))
         
+        # Carry over to the next second, if needed
+        framesPerSecond = int(round(self.sample_rate/(len(self.data)//(2-self.dataReal))))
+        if self.frame >= framesPerSecond:
+            self.frame -= framesPerSecond
+            self.seconds += 1
+        
     def create_raw_frame(self):
         """
         Using the data and information stored in the object, create a
-- 
2.43.0


From 10891ec27a6e5b52d2b7f0f8c8a16faf713aba32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:29:55 +0000
Subject: [PATCH 155/185] fix: do not write DRX frames with time offsets that
 do not fit

---
 lsl/sim/drx.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lsl/sim/drx.py b/lsl/sim/drx.py
index 6b9c0a0..3dd34be 100644
--- a/lsl/sim/drx.py
+++ b/lsl/sim/drx.py
@@ -183,7 +183,9 @@ class SimFrame(drx.Frame):
         self._update()
 
         # Is the time offset reasonable?
-        if self.header.time_offset >= fS:
+        if self.header.time_offset >= fS or not 0 <= self.header.time_offset < 2**16:
+            if raise_errors:
+                raise ValueError(f"Invalid time offset: '{self.header.time_offset}'")
             return False
 
         beam, tune, pol = self.id
-- 
2.43.0


From 46fec9f15040dcf2ccc601bc3ce34760d220d9a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:29:55 +0000
Subject: [PATCH 156/185] fix: do not write DRX frames of invalid beams as
 those of other beams

---
 lsl/sim/drx.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lsl/sim/drx.py b/lsl/sim/drx.py
index 3dd34be..9a452a9 100644
--- a/lsl/sim/drx.py
+++ b/lsl/sim/drx.py
@@ -188,7 +188,7 @@ class SimFrame(drx.Frame):
                 raise ValueError(f"Invalid time offset: '{self.header.time_offset}'")
             return False
 
-        beam, tune, pol = self.id
+        beam, tune, pol = self.beam, self.tune, self.pol
         # Is the beam number reasonable?
         if beam not in [1, 2, 3, 4]:
             if raise_errors:
-- 
2.43.0


From 3289ca124bbdefbae2226f7b2c717f9d962088e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:19:41 +0000
Subject: [PATCH 157/185] fix: lsl.catalog can be imported on its own

---
 lsl/catalog.py | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/lsl/catalog.py b/lsl/catalog.py
index e424a42..ceec1ac 100644
--- a/lsl/catalog.py
+++ b/lsl/catalog.py
@@ -5,12 +5,7 @@ LWA astronomical source catalogs.
 import os
 import math
 import abc
-import collections
-try:
-    Mapping = collections.abc.Mapping
-except AttributeError:
-    # Catch for < Py3.10
-    Mapping = collections.Mapping
+from collections.abc import Mapping
 
 from lsl import astro
 from lsl import transform
-- 
2.43.0


From 7059cc7304a8c574ece5847e03d43874025d67b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:19:41 +0000
Subject: [PATCH 158/185] fix: lsl.reader.buffer exports the frame buffers it
 has

---
 lsl/reader/buffer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lsl/reader/buffer.py b/lsl/reader/buffer.py
index 05a7b1b..066673f 100644
--- a/lsl/reader/buffer.py
+++ b/lsl/reader/buffer.py
@@ -39,7 +39,7 @@ from lsl.logger import LSL_LOGGER
 
 __version__ = '1.4'
 __all__ = ['FrameBufferBase', 'DRXFrameBuffer', 'DRX8FrameBuffer', 
-           'TBFFrameBuffer', 'VDIFFrameBuffer', 'TBXFrameBuffer']
+           'CORFrameBuffer', 'VDIFFrameBuffer', 'TBXFrameBuffer']
 
 
 def _cmp_frames(x, y):
-- 
2.43.0


From 2448666caaa5177ce9bcba0e677cd24c47bb1759 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:19:41 +0000
Subject: [PATCH 159/185] fix: lsl.misc.rfutils exports dBi_to_dBd

---
 lsl/misc/rfutils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lsl/misc/rfutils.py b/lsl/misc/rfutils.py
index a853b7e..aa367d0 100644
--- a/lsl/misc/rfutils.py
+++ b/lsl/misc/rfutils.py
@@ -16,7 +16,7 @@ telemetry.track_module()
 
 
 __version__ = '0.1'
-__all__ = ['dBd_to_dBi', 'dBd_to_dBi', 'dBi_to_gain', 'dBd_to_gain', 'gain_to_dBi', 'gain_to_dBd', 'calculate_sefd', 
+__all__ = ['dBd_to_dBi', 'dBi_to_dBd', 'dBi_to_gain', 'dBd_to_gain', 'gain_to_dBi', 'gain_to_dBd', 'calculate_sefd', 
         'calculate_effective_area', 'Jy_to_dBm', 'dBm_to_Jy']
 
 
-- 
2.43.0


From 640d9f11d509b8983f7b9e3791e9438d4a50e6d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:19:41 +0000
Subject: [PATCH 160/185] fix: PSR catalog debug messages are formatted and a
 malformed RAJ is skipped

---
 lsl/catalog.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lsl/catalog.py b/lsl/catalog.py
index ceec1ac..9e2a4f8 100644
--- a/lsl/catalog.py
+++ b/lsl/catalog.py
@@ -256,6 +256,7 @@ class PSR_Catalog(Catalog):
                     else:
                         LSL_LOGGER.debug(f"Bad format for RAJ line: {line}")
                         bad = True
+                        continue
                     raHours = int(raHours)
                     raMinutes = int(raMinutes)
                     raSeconds = float(raSeconds)
@@ -312,13 +313,13 @@ class PSR_Catalog(Catalog):
                         sourcePos = astro.equ_posn(ra, dec) 
                         entry = CatalogEntry(name, transform.CelestialPosition(sourcePos, name=name))
                         self.source_map[name] = entry
-                        LSL_LOGGER.debug('Added ', name)
+                        LSL_LOGGER.debug(f"Added {name}")
                         
                         if alias is not None:
                             alias = alias.rstrip()
                             self.alias_map[alias] = entry
                             entry.alias_list.append(alias)
-                            LSL_LOGGER.debug('Alias : ', alias.rstrip())
+                            LSL_LOGGER.debug(f"Alias : {alias}")
                                 
                     # Clear out vars for next source
                     psrb = None
-- 
2.43.0


From 95619c2f7d978bc342f086794d87cfaa35896ce2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:19:41 +0000
Subject: [PATCH 161/185] fix: PKS catalog keeps both components of a source
 and plain alias names

---
 lsl/catalog.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lsl/catalog.py b/lsl/catalog.py
index 9e2a4f8..6604191 100644
--- a/lsl/catalog.py
+++ b/lsl/catalog.py
@@ -360,7 +360,7 @@ class PKS_Catalog(Catalog):
                     continue
                     
                 try:
-                    name = line[0:8]
+                    name = line[0:9].rstrip()
                     alias = line[12:19]
                     raHours = int(line[22:24])
                     raMinutes = int(line[25:27])
@@ -384,8 +384,8 @@ class PKS_Catalog(Catalog):
                 entry = CatalogEntry(name, transform.CelestialPosition(sourcePos, epoch='B1950', name=name))
                 self.source_map[name] = entry
                 
-                if len(alias.strip()):
-                    alias = alias.rstrip()
+                alias = alias.strip()
+                if len(alias):
                     self.alias_map[alias] = entry
                     entry.alias_list.append(alias)
                     
-- 
2.43.0


From f4d5015a023a073e7bcf56ce7dcb914afe5a9d35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:19:41 +0000
Subject: [PATCH 162/185] fix: PKS90 catalog reads its positions to the
 precision they are listed with

---
 lsl/catalog.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/lsl/catalog.py b/lsl/catalog.py
index 6604191..e92b7d9 100644
--- a/lsl/catalog.py
+++ b/lsl/catalog.py
@@ -425,15 +425,15 @@ class PKS90_Catalog(Catalog):
                     
                 try:
                     name = line[0:10]
-                    alias0 = line[139:148]
+                    alias0 = line[139:149]
                     alias1 = line[168:175]
                     raHours = int(line[10:12])
                     raMinutes = int(line[13:15])
-                    raSeconds = float(line[16:20])
+                    raSeconds = float(line[16:22])
                     decSign = line[23]
                     decDegrees = int(line[24:26])
                     decMinutes = int(line[27:29])
-                    decSeconds = float(line[30:34])
+                    decSeconds = float(line[30:35])
                 except ValueError:
                     raise RuntimeError(f"file {fileName}, line {lineNum} incorrectly formated [{line}]")
                     
@@ -449,11 +449,11 @@ class PKS90_Catalog(Catalog):
                 self.source_map[name] = entry
                 
                 if len(alias0.strip()): 
-                    alias = alias0.rstrip()
+                    alias = alias0.strip()
                     entry.alias_list.append(alias)
                     self.alias_map[alias] = entry
                 if len(alias1.strip()):
-                    alias = alias1.rstrip()
+                    alias = alias1.strip()
                     entry.alias_list.append(alias)
                     self.alias_map[alias] = entry
                     
-- 
2.43.0


From 79372d20b0170b3d995847afa86aac3bc9038ec8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:43:27 +0000
Subject: [PATCH 163/185] fix: parse_header understands sections after values,
 empty sections, free-form lines and comment characters in values

---
 lsl/common/header.py | 192 ++++++++++---------------------------------
 1 file changed, 42 insertions(+), 150 deletions(-)

diff --git a/lsl/common/header.py b/lsl/common/header.py
index 5304921..0f6cb6a 100644
--- a/lsl/common/header.py
+++ b/lsl/common/header.py
@@ -357,166 +357,58 @@ def parse_header(contents: Union[str,List[str]], comment: str='#') -> Dict[str,A
     if isinstance(contents, str):
         contents = contents.split('\n')
         
-    curr_indent = -1
-    base_indent = -1
-    
-    header = {}
-    active = [header,]
-    for i,line in enumerate(contents):
+    # Collect the lines of the header.  Lines that have been wrapped by
+    # `textwrap.fill()` are put back together.
+    entries = []
+    for line in contents:
         if not line.startswith(comment):
             continue
             
-        line = line.replace(comment, '').rstrip()
-        if not line:
+        line = line[len(comment):].rstrip()
+        if comment != '' and line.endswith(comment):
+            # Right hand side of a box
+            line = line[:-len(comment)].rstrip()
+        if not line.strip((comment or '#') + ' '):
+            # Blank line or horizontal rule
             continue
             
-        # Parse the current (non-empty) line.  If there's a colon then we
-        # assume we are either in a section or a key/value pair.  Otherwise
-        # this must be a comment-style line.
         LSL_LOGGER.debug(f"Working on '{line}'")
-        next_indent = len(line) - len(line.lstrip())
-        if line.find(':') != -1:
-            next_key, next_value = line.split(':', 1)
-            next_key = next_key.strip()
-            next_value = next_value.strip()
+        indent = len(line) - len(line.lstrip())
+        line = line.lstrip()
+        if line.startswith('... ') and entries:
+            LSL_LOGGER.debug("  Processing as continuation of the last line")
+            entries[-1][1] += line[4:]
         else:
-            next_key = ''
-            next_value = line.strip()
-            
-        if next_indent > curr_indent:
-            ## The indent level is higher than the current value.  We have either
-            ## entered a section or we are on a line that's been wrapped by
-            ## `textwrap.fill()`.
-            if curr_indent == -1:
-                if comment == '':
-                    if next_indent >= 1 and base_indent == -1:
-                        LSL_LOGGER.debug(f"  Setting base indent to {next_indent}")
-                        base_indent = next_indent
-                else:
-                    LSL_LOGGER.debug(f"  Setting base indent to {next_indent}")
-                    base_indent = next_indent
-            else:
-                if comment == '':
-                    if next_indent >= 1 and base_indent == -1:
-                        LSL_LOGGER.debug(f"  Setting base indent to {next_indent}")
-                        base_indent = next_indent
-            curr_indent = next_indent
+            entries.append([indent, line])
             
-            if next_value == '':
-                ### It's a section
-                LSL_LOGGER.debug(f"  Starting new section '{next_key}'")
-                active[-1][next_key] = {}
-                active.append(active[-1][next_key])
-            else:
-                will_continue = False
-                try:
-                    next_line = contents[i+1]
-                    if next_line.startswith(comment + ' '*curr_indent + '... '):
-                        will_continue = True
-                except IndexError:
-                    pass
-                    
-                if next_key == '':
-                    ### It's a continued line
-                    LSL_LOGGER.debug(f"  Processing as continuation of last key/value pair")
-                    
-                    try:
-                        last_item = list(active[-1].keys())[-1]
-                    except IndexError:
-                        last_item = '_freeform'
-                        active[-1][last_item] = ''
-                    active[-1][last_item] += next_value.replace('... ', '')
-                    if not will_continue:
-                        try:
-                            value = json.loads(active[-1][last_item])
-                            active[-1][last_item] = value
-                        except json.decoder.JSONDecodeError:
-                            pass
-                else:
-                    ### It's a key/value pair
-                    LSL_LOGGER.debug(f"  Processing as key/value pair")
-                    
-                    if not will_continue:
-                        try:
-                            next_value = json.loads(next_value)
-                        except json.decoder.JSONDecodeError:
-                            pass
-                    active[-1][next_key] = next_value
-                    
-        elif next_indent < curr_indent:
-            ## The indent level is lower than the current value.  We have
-            ## either left a section or have finished a continued line
-            ## that's been wrapped by `textwrap.fill()`.
-            for _ in range((curr_indent - next_indent) // base_indent):
-                ### Leave the section if the indent level has decreased enough
-                ### .. note:: This can't distiguish between a section ending
-                ###           and a continued line ending!
-                LSL_LOGGER.debug(f"  Active is now {active[-1]}")
-                if len(active) > 1:
-                    active.pop()
-            curr_indent = next_indent
-            
-            if next_value == '':
-                ## It's a section
-                LSL_LOGGER.debug(f"  Starting new section '{next_key}'")
-                active[-1][next_key] = {}
-                active.append(active[-1][next_key])
+    # Parse the lines.  A line belongs to the last section above it that is
+    # indented less.  If there's a colon then we assume we are either in a section
+    # or a key/value pair.  Otherwise this must be a comment-style line.
+    header = {}
+    active = [(-1, header),]
+    for indent,line in entries:
+        while indent <= active[-1][0]:
+            active.pop()
+        current = active[-1][1]
+        
+        key, colon, value = line.partition(':')
+        key, value = key.strip(), value.strip()
+        if colon == '':
+            LSL_LOGGER.debug(f"  Processing as free-form line '{line}'")
+            if '_freeform' in current:
+                current['_freeform'] += '\n' + line
             else:
-                will_continue = False
-                try:
-                    next_line = contents[i+1]
-                    if next_line.startswith(comment + ' '*curr_indent + '... '):
-                        will_continue = True
-                except IndexError:
-                    pass
-                    
-                ## It's a key/value pair
-                LSL_LOGGER.debug(f"  Processing as key/value pair")
-                
-                if not will_continue:
-                    try:
-                        next_value = json.loads(next_value)
-                    except json.decoder.JSONDecodeError:
-                        pass
-                active[-1][next_key] = next_value
-                
+                current['_freeform'] = line
+        elif value == '':
+            LSL_LOGGER.debug(f"  Starting new section '{key}'")
+            current[key] = {}
+            active.append((indent, current[key]))
         else:
-            ## No change in the indent level, continued line or a key/value
-            ## pair.
-            will_continue = False
+            LSL_LOGGER.debug("  Processing as key/value pair")
             try:
-                next_line = contents[i+1]
-                if next_line.startswith(comment + ' '*curr_indent + '... '):
-                    will_continue = True
-            except IndexError:
+                value = json.loads(value)
+            except json.decoder.JSONDecodeError:
                 pass
-                
-            if next_key == '':
-                ### It's a continued line
-                LSL_LOGGER.debug(f"  Processing as continuation of last key/value pair")
-                
-                try:
-                    last_item = list(active[-1].keys())[-1]
-                except IndexError:
-                    last_item = '_freeform'
-                    active[-1][last_item] = ''
-                active[-1][last_item] += next_value.replace('... ', '')
-                if not will_continue:
-                    try:
-                        value = json.loads(active[-1][last_item])
-                        active[-1][last_item] = value
-                    except json.decoder.JSONDecodeError:
-                        pass
-            else:
-                ## It's a key/value pair
-                LSL_LOGGER.debug(f"  Processing as key/value pair")
-                
-                if not will_continue:
-                    try:
-                        next_value = json.loads(next_value)
-                    except json.decoder.JSONDecodeError:
-                        pass
-                active[-1][next_key] = next_value
-                
+            current[key] = value
+            
     return header
-                
-- 
2.43.0


From e99ee54aae3897508edb14a01620b650f33da1cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:43:27 +0000
Subject: [PATCH 164/185] fix: header timestamps have the precision asked for

---
 lsl/common/header.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lsl/common/header.py b/lsl/common/header.py
index 0f6cb6a..76bc5f9 100644
--- a/lsl/common/header.py
+++ b/lsl/common/header.py
@@ -194,7 +194,7 @@ class _BaseHeader:
         if tz is None:
             tz = timezone.utc
         t = datetime.now(tz=tz)
-        ts= t.isoformat(timespec='seconds')
+        ts= t.isoformat(timespec=timespec)
         self.key_value(prefix, ts)
         
     def lsl_version(self):
-- 
2.43.0


From dc75d145e94fda0af8a00b64ea390c837044210e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:50:39 +0000
Subject: [PATCH 165/185] fix: scale every gridded image by its own size, not
 that of the first one

---
 lsl/imaging/gridder.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lsl/imaging/gridder.cpp b/lsl/imaging/gridder.cpp
index 161357b..b45adc0 100644
--- a/lsl/imaging/gridder.cpp
+++ b/lsl/imaging/gridder.cpp
@@ -212,7 +212,7 @@ void compute_gridding(long nVis,
     double avgW, ci, cj, temp, temp2;
     long pi, pj, gi, gj;
     Complex32 *suv, *sbm, *kern;
-    static float norm = (float) 1.0 / (nPixSide * nPixSide);
+    float norm = (float) 1.0 / (nPixSide * nPixSide);
     
     // FFT setup
     Complex32* inP;
-- 
2.43.0


From b9ab76f1b4e00cfb0346e7ab20c46e2cf06ed048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:50:39 +0000
Subject: [PATCH 166/185] fix: grid visibilities that all lie in one w plane

---
 lsl/imaging/gridder.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/lsl/imaging/gridder.cpp b/lsl/imaging/gridder.cpp
index b45adc0..ee0f6db 100644
--- a/lsl/imaging/gridder.cpp
+++ b/lsl/imaging/gridder.cpp
@@ -100,6 +100,10 @@ int compute_planes(int nVis,
     long i;
     double csw, psw;
     
+    if( nVis == 0 ) {
+        return nPlanes;
+    }
+    
     *(planeStart + nPlanes) = 0;
     psw = signed_sqrt( *(w+0) );
     for(i=1; i<nVis; i++) {
@@ -111,10 +115,8 @@ int compute_planes(int nVis,
             psw = csw;
         }
     }
-    if( *(planeStop + nPlanes - 1) < nVis) {
-        *(planeStop + nPlanes) = nVis;
-        nPlanes++;
-    }
+    *(planeStop + nPlanes) = nVis;
+    nPlanes++;
     
     /*
     for(i=0; i<nPlanes; i++) {
-- 
2.43.0


From eb9f4059336dd7858f9c4a6eca3fae43a6d4dbca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:51:06 +0000
Subject: [PATCH 167/185] fix: allow for any number of w planes when gridding

---
 lsl/imaging/gridder.cpp | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/lsl/imaging/gridder.cpp b/lsl/imaging/gridder.cpp
index ee0f6db..f388af5 100644
--- a/lsl/imaging/gridder.cpp
+++ b/lsl/imaging/gridder.cpp
@@ -20,9 +20,6 @@
 #include "../correlator/common.hpp"
 
 
-// Maximum number of w-planes to project
-#define MAX_W_PLANES 1024
-
 // Gridding convolution size on a side and oversampling factor
 #define GRID_KERNEL_SIZE 7    // should be an odd number
 #define GRID_KERNEL_OVERSAMPLE 64
@@ -201,8 +198,9 @@ void compute_gridding(long nVis,
     // Figure out the w-planes to use
     int nPlanes = 0;
     long *planeStart, *planeStop;
-    planeStart = (long *) malloc(MAX_W_PLANES*sizeof(long));
-    planeStop = (long *) malloc(MAX_W_PLANES*sizeof(long));
+    // .. there cannot be more planes than visibilities
+    planeStart = (long *) malloc((nVis+1)*sizeof(long));
+    planeStop = (long *) malloc((nVis+1)*sizeof(long));
     nPlanes = compute_planes(nVis, wRes, w, planeStart, planeStop);
     
     // Fill in the 1-D gridding kernel
-- 
2.43.0


From 6956bcb55363a2fb22f61861fb933b01574be56c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:51:06 +0000
Subject: [PATCH 168/185] fix: do not grid visibilities outside of the uv plane
 into other memory

---
 lsl/imaging/gridder.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lsl/imaging/gridder.cpp b/lsl/imaging/gridder.cpp
index f388af5..3f87150 100644
--- a/lsl/imaging/gridder.cpp
+++ b/lsl/imaging/gridder.cpp
@@ -264,6 +264,11 @@ void compute_gridding(long nVis,
                     cj += nPixSide;
                 }
                 
+                // Skip what is outside of the uv plane
+                if( !(ci >= 0.0 && ci <= nPixSide && cj >= 0.0 && cj <= nPixSide) ) {
+                    continue;
+                }
+                
                 for(m=-GRID_KERNEL_SIZE/2; m<GRID_KERNEL_SIZE/2+1; m++) {
                     pi = (long) round(ci) + m;
                     gi = (long) ((ci - pi)*GRID_KERNEL_OVERSAMPLE);
-- 
2.43.0


From dd6e7e2f58ed90d61c9292d9860f654dbb5c1cbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:51:06 +0000
Subject: [PATCH 169/185] fix: use the nearest sample of the gridding kernel so
 that fluxes are not 3% too large

---
 lsl/imaging/gridder.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lsl/imaging/gridder.cpp b/lsl/imaging/gridder.cpp
index 3f87150..05b86e2 100644
--- a/lsl/imaging/gridder.cpp
+++ b/lsl/imaging/gridder.cpp
@@ -271,7 +271,7 @@ void compute_gridding(long nVis,
                 
                 for(m=-GRID_KERNEL_SIZE/2; m<GRID_KERNEL_SIZE/2+1; m++) {
                     pi = (long) round(ci) + m;
-                    gi = (long) ((ci - pi)*GRID_KERNEL_OVERSAMPLE);
+                    gi = (long) round((ci - pi)*GRID_KERNEL_OVERSAMPLE);
                     if(gi < 0) {
                         gi = -gi;
                     }
@@ -286,7 +286,7 @@ void compute_gridding(long nVis,
                     
                     for(l=-GRID_KERNEL_SIZE/2; l<GRID_KERNEL_SIZE/2+1; l++) {
                         pj = (long) round(cj) + l;
-                        gj = (long) ((cj - pj)*GRID_KERNEL_OVERSAMPLE);
+                        gj = (long) round((cj - pj)*GRID_KERNEL_OVERSAMPLE);
                         if(gj < 0) {
                             gj = -gj;
                         }
-- 
2.43.0


From 3b658272857ca61569a5045e6247b2a4282d6d27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:51:06 +0000
Subject: [PATCH 170/185] fix: weighting an image does not change the gridded
 data

---
 lsl/imaging/utils.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lsl/imaging/utils.py b/lsl/imaging/utils.py
index 554a6a8..686af59 100644
--- a/lsl/imaging/utils.py
+++ b/lsl/imaging/utils.py
@@ -1465,7 +1465,8 @@ class ImgWPlus(aipy.img.ImgW):
         elif weighting == 'uniform':
             ## Uniform weighting
             wgt = self.bm[0].real
-            data *= 1.0/wgt
+            with np.errstate(divide='ignore', invalid='ignore'):
+                data = data * (1.0/wgt)
             data[np.where(wgt == 0)] = 0.0
             
         elif weighting == 'briggs':
@@ -1474,7 +1475,7 @@ class ImgWPlus(aipy.img.ImgW):
             wavg = wgt.sum()
             w2avg = (wgt**2).sum()
             S2 = 25 * 10**(-2*robust) / (w2avg / wavg)
-            data *= 1.0 / (1.0 + wgt*S2)
+            data = data * (1.0 / (1.0 + wgt*S2))
             data[np.where(wgt == 0)] = 0.0
             
         # Make sure that we have the right type to taper with
-- 
2.43.0


From a86b60e207b72dc2a775127bdfc14c0ef0f2c937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:51:06 +0000
Subject: [PATCH 171/185] fix: apply the u and v tapers to u and v

---
 lsl/imaging/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lsl/imaging/utils.py b/lsl/imaging/utils.py
index 686af59..53f6956 100644
--- a/lsl/imaging/utils.py
+++ b/lsl/imaging/utils.py
@@ -1488,7 +1488,7 @@ class ImgWPlus(aipy.img.ImgW):
             
         # Apply the taper
         if taper[0] > 0.0 or taper[1] > 0.0:
-            u,v = self.get_uv()
+            v,u = self.get_uv()     # rows are v, columns are u
             
             taper1 = 1.0
             if taper[0] > 0.0:
-- 
2.43.0


From 1c2a9dfa9a9f0eee27e4754930509bace956bc66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:51:06 +0000
Subject: [PATCH 172/185] fix: image all integrations of a VisibilityData, not
 the last one only

---
 lsl/imaging/utils.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lsl/imaging/utils.py b/lsl/imaging/utils.py
index 53f6956..853267d 100644
--- a/lsl/imaging/utils.py
+++ b/lsl/imaging/utils.py
@@ -1708,7 +1708,9 @@ def build_gridded_image(data_set, size=80, res=0.50, im_size=None, im_res=None,
     if wgt.dtype != np.complex64:
         wgt = wgt.astype(np.complex64)
 
-    im.uv, im.bm[0], im.kern_corr = WProjection(u, v, w, vis, wgt, size, np.float64(res), np.float64(wres))
+    uv, bm, im.kern_corr = WProjection(u, v, w, vis, wgt, size, np.float64(res), np.float64(wres))
+    im.uv += uv
+    im.bm[0] += bm
         
     # Update MJD, phase center, and antenna array information
     im.mjd = data_set.mjd
-- 
2.43.0


From 7bf0a8fc389ab3fe2c8420f63c095af01c0858ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:51:06 +0000
Subject: [PATCH 173/185] fix: WCS of images with an astro.equ_posn phase
 center

---
 lsl/imaging/utils.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/lsl/imaging/utils.py b/lsl/imaging/utils.py
index 853267d..de5edf2 100644
--- a/lsl/imaging/utils.py
+++ b/lsl/imaging/utils.py
@@ -1602,11 +1602,12 @@ class ImgWPlus(aipy.img.ImgW):
         # Extract what we need from the phase center
         obs_t = AstroTime(self._mjd, format='mjd', scale='utc')
         if isinstance(self._phase_center, astro.equ_posn):
-            pc_ra = self._phase_center.ra
-            pc_dec = self._phase_center.dec
-            pc_equinox = 'J2000'
-            pc = FK5(ra=pc_ra*astrounits.deg, dec=pc_dec*astrounits.deg, equinox=pc_equinox)
-            pc = self._phase_center.transform_to(FK5(equinox=obs_t))
+            pc = FK5(ra=self._phase_center.ra*astrounits.deg,
+                     dec=self._phase_center.dec*astrounits.deg,
+                     equinox='J2000')
+            pc = pc.transform_to(FK5(equinox=obs_t))
+            pc_ra = pc.ra.deg
+            pc_dec = pc.dec.deg
         else:
             try:
                 pc = self._phase_center.transform_to(FK5(equinox=obs_t))
-- 
2.43.0


From e839e69f6e8ddb40f651d8fb208084d3693e920d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:51:38 +0000
Subject: [PATCH 174/185] fix: image a single visibility

---
 lsl/imaging/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lsl/imaging/utils.py b/lsl/imaging/utils.py
index de5edf2..9286690 100644
--- a/lsl/imaging/utils.py
+++ b/lsl/imaging/utils.py
@@ -1701,7 +1701,7 @@ def build_gridded_image(data_set, size=80, res=0.50, im_size=None, im_res=None,
     vis = np.concatenate(vis)
     wgt = np.concatenate(wgt)
     
-    uvw, vis, wgt = im.append_hermitian(uvw, vis, wgts=wgt)
+    uvw, vis, wgt = im.append_hermitian(uvw, vis, wgts=[wgt,])
     u,v,w = uvw
     order = np.argsort(w)
     u,v,w = u.take(order), v.take(order), w.take(order)
-- 
2.43.0


From 7face94120d4ef6f6c30a23d191d7e92f6aec8f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:51:38 +0000
Subject: [PATCH 175/185] fix: leave masked visibilities out of images

---
 lsl/imaging/utils.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/lsl/imaging/utils.py b/lsl/imaging/utils.py
index 9286690..887663e 100644
--- a/lsl/imaging/utils.py
+++ b/lsl/imaging/utils.py
@@ -1691,15 +1691,19 @@ def build_gridded_image(data_set, size=80, res=0.50, im_size=None, im_res=None,
         uvw = data_set.uvw[:,:,chan]
         vis = pds.data[:,chan]
         wgt = pds.weight[:,chan]
+        msk = pds.mask[:,chan]
         
     else:
         uvw = data_set.uvw
         vis = pds.data
         wgt = pds.weight
+        msk = pds.mask
         
-    uvw = np.concatenate(uvw, axis=1)
-    vis = np.concatenate(vis)
-    wgt = np.concatenate(wgt)
+    # Flatten, leaving out anything that is masked
+    valid = np.logical_not(np.concatenate(msk))
+    uvw = np.concatenate(uvw, axis=1)[:,valid]
+    vis = np.concatenate(vis)[valid]
+    wgt = np.concatenate(wgt)[valid]
     
     uvw, vis, wgt = im.append_hermitian(uvw, vis, wgts=[wgt,])
     u,v,w = uvw
-- 
2.43.0


From 833bee40c47c6e372e977b0ff9da950059229c2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:02:02 +0000
Subject: [PATCH 176/185] fix: unshifted coordinates of images with an odd
 number of pixels

---
 lsl/imaging/utils.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lsl/imaging/utils.py b/lsl/imaging/utils.py
index 887663e..6d27cdd 100644
--- a/lsl/imaging/utils.py
+++ b/lsl/imaging/utils.py
@@ -1783,12 +1783,12 @@ def get_image_radec(gimg, shifted=True):
     # Shift, if needed
     if not shifted:
         raSize = ra.shape[0]	# should be square
-        ra = np.roll(ra, raSize//2, axis=0)
-        ra = np.roll(ra, raSize//2, axis=1)
+        ra = np.roll(ra, -(raSize//2), axis=0)
+        ra = np.roll(ra, -(raSize//2), axis=1)
         
         decSize = dec.shape[0]	# should be square
-        dec = np.roll(dec, decSize//2, axis=0)
-        dec = np.roll(dec, decSize//2, axis=1)
+        dec = np.roll(dec, -(decSize//2), axis=0)
+        dec = np.roll(dec, -(decSize//2), axis=1)
         
     # Done
     return ra, dec
-- 
2.43.0


From 3bd4e1b44f236cdbe5309ca7ebdd5f0e51c214dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:04:07 +0000
Subject: [PATCH 177/185] fix: simulated polarizations with a flat response do
 not share their data

---
 lsl/sim/vis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lsl/sim/vis.py b/lsl/sim/vis.py
index 4cfe24c..d825b1a 100644
--- a/lsl/sim/vis.py
+++ b/lsl/sim/vis.py
@@ -1113,7 +1113,7 @@ def __build_sim_data(aa, srcs, pols=['xx', 'yy', 'xy', 'yx'], jd=None, chan=None
         ## Unpack the data and add it to the data set
         if p == 0:
             UVData.uvw = uvw1
-        pds = PolarizationDataSet(pol.upper(), data=vis1)
+        pds = PolarizationDataSet(pol.upper(), data=vis1.copy())
         UVData.append( pds )
         
     # Cleanup
-- 
2.43.0


From d5dfea539159f49deacc957d3596d5073d97d46c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:04:07 +0000
Subject: [PATCH 178/185] fix: add noise to data that do not use all of the
 antennas

---
 lsl/sim/vis.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lsl/sim/vis.py b/lsl/sim/vis.py
index d825b1a..f6e01ad 100644
--- a/lsl/sim/vis.py
+++ b/lsl/sim/vis.py
@@ -1279,11 +1279,12 @@ def add_baseline_noise(dataSet, SEFD, tInt, bandwidth=None, efficiency=1.0):
             
     except TypeError:
         SEFD = np.ones(nAnts)*SEFD
+    lookup = {ant: k for k,ant in enumerate(sorted(ants))}
         
     # Calculate the standard deviation of the real/imaginary noise
     visNoiseSigma = np.zeros((len(dataSet.baselines), len(dataSet.freq)))
     for k,(i,j) in enumerate(dataSet.baselines):
-        visNoiseSigma[k,:] = np.sqrt(SEFD[i]*SEFD[j])
+        visNoiseSigma[k,:] = np.sqrt(SEFD[lookup[i]]*SEFD[lookup[j]])
     visNoiseSigma *= 1 / efficiency / np.sqrt(2.0*bandwidth*tInt)
     
     # Build the VisibilityDataSet to hold the data with noise added
-- 
2.43.0


From 0c9fd2370ece94b6c1d8e1ad86885ee6202caf19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:04:07 +0000
Subject: [PATCH 179/185] fix: shift the coordinates of each integration at its
 own time

---
 lsl/sim/vis.py | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/lsl/sim/vis.py b/lsl/sim/vis.py
index f6e01ad..c5e9d66 100644
--- a/lsl/sim/vis.py
+++ b/lsl/sim/vis.py
@@ -1228,17 +1228,17 @@ def shift_data(dataSet, aa):
     # Build the VisibilityDataSet to hold the scaled and delayed data
     shftData = dataSet.copy(include_pols=True)
     
-    # Apply the coordinate shift
-    if isinstance(shftData, VisibilityData):
-        for data_set in shftData:
-            for b,(i,j) in enumerate(data_set.baselines):
-                crds = aa.gen_uvw(j, i, src=data_set.phase_center)[:,0,:]
-                data_set.uvw[b,:] = crds
-    else:
-        for b,(i,j) in enumerate(shftData.baselines):
-            crds = aa.gen_uvw(j, i, src=shftData.phase_center)[:,0,:]
-            shftData.uvw[b,:] = crds
-            
+    # Apply the coordinate shift, each integration at its own time
+    old_jultime = aa.get_jultime()
+    for data_set in (shftData if isinstance(shftData, VisibilityData) else [shftData,]):
+        aa.set_jultime(data_set.jd)
+        if not isinstance(data_set.phase_center, str):
+            data_set.phase_center.compute(aa)
+        for b,(i,j) in enumerate(data_set.baselines):
+            crds = aa.gen_uvw(j, i, src=data_set.phase_center)[:,0,:]
+            data_set.uvw[b,:] = crds
+    aa.set_jultime(old_jultime)
+    
     return shftData
 
 
-- 
2.43.0


From 6a40b03e5ad42c476bcbc0cc11ef89aeffba03fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:04:07 +0000
Subject: [PATCH 180/185] fix: refuse to simulate channels and baselines that
 the array does not have

---
 lsl/sim/simfast.cpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/lsl/sim/simfast.cpp b/lsl/sim/simfast.cpp
index d201166..574946a 100644
--- a/lsl/sim/simfast.cpp
+++ b/lsl/sim/simfast.cpp
@@ -275,6 +275,11 @@ static PyObject *FastVis(PyObject *self, PyObject *args, PyObject *kwds) {
     printf("Channel Range: %li to %li\n", chanMin, chanMax);
     */
     
+    if( chanMin < 0 || chanMax > nFreq ) {
+        PyErr_Format(PyExc_ValueError, "Channel range is outside of the range of channels available");
+        goto fail;
+    }
+    
     // Find out how large the output array needs to be and initialize it
     npy_intp dims1[3];
     dims1[0] = (npy_intp) nBL;
@@ -333,6 +338,14 @@ static PyObject *FastVis(PyObject *self, PyObject *args, PyObject *kwds) {
         }
         
         Py_DECREF(temp2);
+        
+        if( *(bll + 2*i + 0) < 0 || *(bll + 2*i + 0) >= nAnt \
+            || *(bll + 2*i + 1) < 0 || *(bll + 2*i + 1) >= nAnt ) {
+            PyErr_Format(PyExc_ValueError, "Baseline %li uses an antenna that is not in the array", i);
+            free(pos);
+            free(bll);
+            goto fail;
+        }
     }
     
 #define LAUNCH_COMPUTE_VIS(IterType) \
-- 
2.43.0


From 487601078883bf2b576d685996d006d986d6e66d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:10:54 +0000
Subject: [PATCH 181/185] fix: self-calibration keeps the gains when it solves
 for phases and delays

---
 lsl/imaging/selfcal.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/lsl/imaging/selfcal.py b/lsl/imaging/selfcal.py
index af2ee0c..940e5c7 100644
--- a/lsl/imaging/selfcal.py
+++ b/lsl/imaging/selfcal.py
@@ -347,7 +347,7 @@ def _self_cal(aa, dataSet, simSet, chan, pol, ref_ant=0, loop_gain=0.75, max_ite
                 amplitude = False
                 converged = True
                 
-            dataSet = _scale_data(origSet, tempGains, np.zeros_like(tempGains), np.zeros_like(tempGains))
+            dataSet = _scale_data(origSet, tempGains, tempDelays, tempPhaseOffsets)
             
         #
         # Delay and/or phase
@@ -384,7 +384,7 @@ def _self_cal(aa, dataSet, simSet, chan, pol, ref_ant=0, loop_gain=0.75, max_ite
                 phase_only = False
                 converged = True
                 
-            dataSet = _scale_data(origSet, np.ones_like(tempPhaseOffsets), np.zeros_like(tempPhaseOffsets), tempPhaseOffsets)
+            dataSet = _scale_data(origSet, tempGains, np.zeros_like(tempPhaseOffsets), tempPhaseOffsets)
             
         elif delay_only:
             LSL_LOGGER.debug(f'  {i+1}D')
@@ -418,7 +418,7 @@ def _self_cal(aa, dataSet, simSet, chan, pol, ref_ant=0, loop_gain=0.75, max_ite
                 delay_only = False
                 converged = True
                 
-            dataSet = _scale_data(origSet, np.ones_like(tempDelays), tempDelays, np.zeros_like(tempDelays))
+            dataSet = _scale_data(origSet, tempGains, tempDelays, np.zeros_like(tempDelays))
             
         elif delay_and_phase:
             LSL_LOGGER.debug(f'  {i+1}D+P')
@@ -446,7 +446,7 @@ def _self_cal(aa, dataSet, simSet, chan, pol, ref_ant=0, loop_gain=0.75, max_ite
             bestDelays = np.array(bestDelays)
             tempDelays += loop_gain*bestDelays
             
-            dataSet = _scale_data(origSet, np.ones_like(tempDelays), tempDelays, tempPhaseOffsets)
+            dataSet = _scale_data(origSet, tempGains, tempDelays, tempPhaseOffsets)
             
             ## Then phase
             A = _build_phase_a(aa, dataSet, simSet, chan, pol, ref_ant=ref_ant)
@@ -479,7 +479,7 @@ def _self_cal(aa, dataSet, simSet, chan, pol, ref_ant=0, loop_gain=0.75, max_ite
                 delay_and_phase = False
                 converged = True
                 
-            dataSet = _scale_data(origSet, np.ones_like(tempDelays), tempDelays, tempPhaseOffsets)
+            dataSet = _scale_data(origSet, tempGains, tempDelays, tempPhaseOffsets)
             
         else:
             pass
-- 
2.43.0


From 0c0e2370e19ae3b39ff5a4af9a5fc5c4c4627334 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:10:54 +0000
Subject: [PATCH 182/185] fix: self-calibration has converged when gains,
 phases and delays all have

---
 lsl/imaging/selfcal.py | 25 +++++++++++--------------
 1 file changed, 11 insertions(+), 14 deletions(-)

diff --git a/lsl/imaging/selfcal.py b/lsl/imaging/selfcal.py
index 940e5c7..5d0dd40 100644
--- a/lsl/imaging/selfcal.py
+++ b/lsl/imaging/selfcal.py
@@ -314,7 +314,8 @@ def _self_cal(aa, dataSet, simSet, chan, pol, ref_ant=0, loop_gain=0.75, max_ite
     for i in range(max_iter):
         if converged:
             break
-            
+        converged = True
+        
         #
         # Amplitude
         #
@@ -341,11 +342,10 @@ def _self_cal(aa, dataSet, simSet, chan, pol, ref_ant=0, loop_gain=0.75, max_ite
             tempGains *= bestGains
             
             valid = np.where( np.abs(bestGains) < 1e6 )[0]
-            metric = (np.abs(bestGains[valid])).max()
+            metric = np.exp(np.abs(np.log(bestGains[valid])).max())
             LSL_LOGGER.debug(f'    {metric}')
-            if metric < amplitude_cutoff:
-                amplitude = False
-                converged = True
+            if not metric < amplitude_cutoff:
+                converged = False
                 
             dataSet = _scale_data(origSet, tempGains, tempDelays, tempPhaseOffsets)
             
@@ -380,9 +380,8 @@ def _self_cal(aa, dataSet, simSet, chan, pol, ref_ant=0, loop_gain=0.75, max_ite
             valid = np.where( np.abs(bestPhaseOffsets) < 1e6 )[0]
             metric = (np.abs(bestPhaseOffsets[valid])).max()
             LSL_LOGGER.debug(f'    {metric}')
-            if metric < phase_cutoff:
-                phase_only = False
-                converged = True
+            if not metric < phase_cutoff:
+                converged = False
                 
             dataSet = _scale_data(origSet, tempGains, np.zeros_like(tempPhaseOffsets), tempPhaseOffsets)
             
@@ -414,9 +413,8 @@ def _self_cal(aa, dataSet, simSet, chan, pol, ref_ant=0, loop_gain=0.75, max_ite
             valid = np.where( np.abs(bestDelays) < 1e6 )[0]
             metric = (np.abs(bestDelays[valid])).max()
             LSL_LOGGER.debug(f'    {metric}')
-            if metric < delay_cutoff:
-                delay_only = False
-                converged = True
+            if not metric < delay_cutoff:
+                converged = False
                 
             dataSet = _scale_data(origSet, tempGains, tempDelays, np.zeros_like(tempDelays))
             
@@ -475,9 +473,8 @@ def _self_cal(aa, dataSet, simSet, chan, pol, ref_ant=0, loop_gain=0.75, max_ite
             metric1 = (np.abs(bestDelays[valid])).max()
             metric2 = (np.abs(bestPhaseOffsets[valid])).max()
             LSL_LOGGER.debug(f'    {metric1} {metric2}')
-            if metric1 < delay_cutoff and metric2 < phase_cutoff:
-                delay_and_phase = False
-                converged = True
+            if not (metric1 < delay_cutoff and metric2 < phase_cutoff):
+                converged = False
                 
             dataSet = _scale_data(origSet, tempGains, tempDelays, tempPhaseOffsets)
             
-- 
2.43.0


From 2311d5de506ddaf40fe16343f4a5e368118459a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:12:14 +0000
Subject: [PATCH 183/185] fix: self-calibration with auto-correlations

---
 lsl/imaging/selfcal.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/lsl/imaging/selfcal.py b/lsl/imaging/selfcal.py
index 5d0dd40..c1a102a 100644
--- a/lsl/imaging/selfcal.py
+++ b/lsl/imaging/selfcal.py
@@ -72,8 +72,8 @@ def _build_amplitude_a(aa, dataSet, simSet, chan, pol, ref_ant=0):
     
     A = np.zeros((nBLs, nStands))
     for i,(l,m) in enumerate(dataSet.baselines):
-        A[i,l] = 1.0
-        A[i,m] = 1.0
+        A[i,l] += 1.0
+        A[i,m] += 1.0
         
     return A
 
@@ -129,16 +129,16 @@ def _build_phase_a(aa, dataSet, simSet, chan, pol, ref_ant=0):
     for i in range(fq.size):
         for j,(l,m) in enumerate(dataSet.baselines):
             if l < ref_ant:
-                A[j+i*nBLs,l]   =  1.0
+                A[j+i*nBLs,l]   += 1.0
             elif l > ref_ant:
-                A[j+i*nBLs,l-1] =  1.0
+                A[j+i*nBLs,l-1] += 1.0
             else:
                 pass
                 
             if m < ref_ant:
-                A[j+i*nBLs,m]   = -1.0
+                A[j+i*nBLs,m]   -= 1.0
             elif m > ref_ant:
-                A[j+i*nBLs,m-1] = -1.0
+                A[j+i*nBLs,m-1] -= 1.0
             else:
                 pass
         
@@ -194,16 +194,16 @@ def _build_delay_a(aa, dataSet, simSet, chan, pol, ref_ant=0):
     for i in range(fq.size):
         for j,(l,m) in enumerate(dataSet.baselines):
             if l < ref_ant:
-                A[j+i*nBLs,l]   =  1
+                A[j+i*nBLs,l]   += 1
             elif l > ref_ant:
-                A[j+i*nBLs,l-1] =  1
+                A[j+i*nBLs,l-1] += 1
             else:
                 pass
                 
             if m < ref_ant:
-                A[j+i*nBLs,m]   = -1
+                A[j+i*nBLs,m]   -= 1
             elif m > ref_ant:
-                A[j+i*nBLs,m-1] = -1
+                A[j+i*nBLs,m-1] -= 1
             else:
                 pass
         
-- 
2.43.0


From 9b488daec88aac3ee1bfd8c121d3eed3026c6eae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:12:14 +0000
Subject: [PATCH 184/185] fix: centers of point sources are offset along their
 own axes

---
 lsl/imaging/analysis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lsl/imaging/analysis.py b/lsl/imaging/analysis.py
index fea6cfc..97767f6 100644
--- a/lsl/imaging/analysis.py
+++ b/lsl/imaging/analysis.py
@@ -164,7 +164,7 @@ def find_point_sources(image, threshold=4.0, fwhm=1.0, sharp=[0.2,1.0], round=[-
     # the detection radius
     ## Coordinate setup
     row = np.arange(nBox, dtype=np.float64) - nHalf
-    rx, ry = np.meshgrid(row, row)
+    rx, ry = np.meshgrid(row, row, indexing='ij')
     ## Build the mask
     mask = (rx**2 + ry**2) <= radius**2
     valid = np.where( mask )
-- 
2.43.0


From 5b5bf329b4a95212bd46578889db2e2070c4705c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:14:00 +0000
Subject: [PATCH 185/185] fix: background of images that are constant in
 places, and along their edges

---
 lsl/imaging/analysis.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/lsl/imaging/analysis.py b/lsl/imaging/analysis.py
index 97767f6..32fb674 100644
--- a/lsl/imaging/analysis.py
+++ b/lsl/imaging/analysis.py
@@ -9,7 +9,8 @@ Module for analyzing images.  Currently, this module supports:
 import math
 import logging
 import numpy as np
-from scipy.signal import convolve, medfilt
+from scipy.ndimage import median_filter
+from scipy.signal import convolve
 from scipy.interpolate import bisplrep, bisplev
 
 from lsl.logger import LSL_LOGGER
@@ -55,7 +56,7 @@ def estimate_background(image, window=32):
     # Process the background grid
     backgroundX = np.zeros((nX,nY), dtype=np.float64)
     backgroundY = np.zeros((nX,nY), dtype=np.float64)
-    backgroundBasis = np.zeros((nX,nY), dtype=image.dtype)
+    backgroundBasis = np.zeros((nX,nY), dtype=np.float64)
     for i in range(nX):
         for j in range(nY):
             ## Extract the tile area
@@ -64,13 +65,13 @@ def estimate_background(image, window=32):
             ## Compute the mean and standard deviation - both with and
             ## without progressive clipping
             m0, s0 = np.mean(tile), np.std(tile)
-            valid = np.where( np.abs(tile-m0) < 3*s0 )
+            valid = np.where( np.abs(tile-m0) <= 3*s0 )
             m1, s1 = np.mean(tile[valid]), np.std(tile[valid])
             
             ## If the standard deviation hasn't changed by more than 20% use
             ## it's an uncrowded field and we can use the clipped mean.  Other-
             ## wise estimate the mode.
-            if abs(s1-s0)/s0 <= 0.2:
+            if abs(s1-s0) <= 0.2*s0:
                 backgroundBasis[i,j] = m1
             else:
                 ### This is SExtractor specific and is a correction for the 
@@ -87,7 +88,7 @@ def estimate_background(image, window=32):
     backgroundBasis[bad] = np.median(backgroundBasis[good])
     
     # Use a median filter to get rid of unusually high regions
-    backgroundBasis = medfilt(backgroundBasis, 3)
+    backgroundBasis = median_filter(backgroundBasis, 3, mode='nearest')
     
     # Build up the interpolation function
     backgroundX, backgroundY = backgroundX.ravel(), backgroundY.ravel()
-- 
2.43.0

