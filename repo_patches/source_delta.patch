From fa1514bc242b011d15b14e4e1a1e9399bc3e3b18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:29:43 +0000
Subject: [PATCH 01/11] fix: compare signatures with a smaller left denominator
 in the right order

---
 src/melodia/core/signature.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/melodia/core/signature.py b/src/melodia/core/signature.py
index 6514bf5..cc45f3b 100644
--- a/src/melodia/core/signature.py
+++ b/src/melodia/core/signature.py
@@ -114,7 +114,7 @@ class Signature:
         if d1 > d2:
             return n1, d1 // d2 * n2, d1
 
-        return n2, d2 // d1 * n1, d2
+        return d2 // d1 * n1, n2, d2
 
     def __str__(self) -> str:
         """
-- 
2.43.0


From e6f5dff91ba718f6f26952d6cd1d60b54d4dfa8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:29:43 +0000
Subject: [PATCH 02/11] fix: tracks with different numbers of notes are not
 equal

---
 src/melodia/core/track.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/melodia/core/track.py b/src/melodia/core/track.py
index ddc11d6..c5b52b1 100644
--- a/src/melodia/core/track.py
+++ b/src/melodia/core/track.py
@@ -123,6 +123,9 @@ class Track:
         if self._signature != other._signature:
             return False
 
+        if len(self) != len(other):
+            return False
+
         for (ap, an), (bp, bn) in zip(self, other):
             if an != bn or ap != bp:
                 return False
-- 
2.43.0


From f6878784d2fac628793d37959a60a6b455255917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:29:43 +0000
Subject: [PATCH 03/11] fix: reject tone notation followed by trailing
 characters

---
 src/melodia/core/tone.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/melodia/core/tone.py b/src/melodia/core/tone.py
index 72acf12..7380831 100644
--- a/src/melodia/core/tone.py
+++ b/src/melodia/core/tone.py
@@ -95,7 +95,7 @@ class Tone:
         :param notation: notation string
         :return: Tone with pitch derived from notation
         """
-        match = _notation_regex.match(notation)
+        match = _notation_regex.fullmatch(notation)
 
         if match is None:
             raise ValueError('Invalid notation')
-- 
2.43.0


From b7bbdf3412591dfa7aabc0923b041d9fa9807981 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:29:43 +0000
Subject: [PATCH 04/11] fix: write 24 MIDI clocks per metronome click instead
 of pulses per quarter

---
 src/melodia/io/midi.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/melodia/io/midi.py b/src/melodia/io/midi.py
index 6724f81..8c2f51e 100644
--- a/src/melodia/io/midi.py
+++ b/src/melodia/io/midi.py
@@ -216,7 +216,7 @@ class MIDIWriter:
 
         delta_events: List[Tuple[int, bytes]] = [
             # Time signature
-            (0, self._format_signature(track.signature, cc=self._pulses_per_quarter, bb=8)),
+            (0, self._format_signature(track.signature, cc=24, bb=8)),
             # Tempo
             (0, self._format_tempo(int(60000000 / self._bpm)))
         ]
-- 
2.43.0


From 57bc668a181a97e88b8c2d40159871a445c3a18a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:29:43 +0000
Subject: [PATCH 05/11] fix: read all four bytes of the chunk size

---
 src/melodia/io/midi.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/melodia/io/midi.py b/src/melodia/io/midi.py
index 8c2f51e..c861453 100644
--- a/src/melodia/io/midi.py
+++ b/src/melodia/io/midi.py
@@ -394,7 +394,7 @@ class MIDIReader:
             if len(chunk_header) < 8:
                 raise MIDIParsingError('Invalid MIDI file: incomplete chunk header')
             chunk_name = chunk_header[:4]
-            chunk_size = int.from_bytes(chunk_header[5:], 'big')
+            chunk_size = int.from_bytes(chunk_header[4:], 'big')
             chunk_body = file.read(chunk_size)
             if len(chunk_body) < chunk_size:
                 raise MIDIParsingError('Invalid MIDI file: incomplete chunk body')
-- 
2.43.0


From 2c1946bf630e13b3faaad1f3d361bf54f8f15681 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:29:43 +0000
Subject: [PATCH 06/11] fix: skip system exclusive events by their length

---
 src/melodia/io/midi.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/melodia/io/midi.py b/src/melodia/io/midi.py
index c861453..ae03eb1 100644
--- a/src/melodia/io/midi.py
+++ b/src/melodia/io/midi.py
@@ -508,11 +508,9 @@ class MIDIReader:
                         return _EventNoteOFF(channel=channel, pitch=pitch, velocity=velocity)
 
                     return _EventNoteON(channel=channel, pitch=pitch, velocity=velocity)
-                elif status == 0xF0:
-                    # System exclusive
-                    value = 0
-                    while value != 0xF7:
-                        value = data.read(1)
+                elif status in (0xF0, 0xF7):
+                    # Skip system exclusive event body
+                    data.read(MIDIReader._read_var_len(data))
                     return _EventUnsupported()
                 else:
                     length = _event_lengths[status]
-- 
2.43.0


From c1bb8af0a10560c3f57fc0edb152a0ca6729800c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:29:43 +0000
Subject: [PATCH 07/11] fix: report running status without a previous event as
 a parsing error

---
 src/melodia/io/midi.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/melodia/io/midi.py b/src/melodia/io/midi.py
index ae03eb1..3ca5760 100644
--- a/src/melodia/io/midi.py
+++ b/src/melodia/io/midi.py
@@ -521,6 +521,8 @@ class MIDIReader:
                     return _EventUnsupported()
             else:
                 # Running status
+                if previous_status is None:
+                    raise MIDIParsingError('Invalid MIDI file: running status without previous event')
                 data.shift(-1)
                 return read_event(status=previous_status)
 
-- 
2.43.0


From 9b426f7d4fccbca5a7f142297466834b26847332 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:29:43 +0000
Subject: [PATCH 08/11] fix: report zero division as a parsing error

---
 src/melodia/io/midi.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/melodia/io/midi.py b/src/melodia/io/midi.py
index 3ca5760..388729e 100644
--- a/src/melodia/io/midi.py
+++ b/src/melodia/io/midi.py
@@ -625,6 +625,8 @@ class MIDIReader:
                     raise MIDIParsingError('Invalid MIDI file: multiple tracks in a single track file')
                 if division > 0x7FFF:
                     raise MIDIParsingError('Unsupported MIDI file: unsupported division')
+                if division == 0:
+                    raise MIDIParsingError('Invalid MIDI file: division is zero')
                 ticks_per_quarter = division
             if chunk_kind == b'MTrk':
                 if ticks_per_quarter is None:
-- 
2.43.0


From 4c55e8a7ee4fb4227651c39aad245f5d18b92e8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:29:43 +0000
Subject: [PATCH 09/11] fix: do not leave a rejected object in the track

---
 src/melodia/core/track.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/melodia/core/track.py b/src/melodia/core/track.py
index c5b52b1..094eb03 100644
--- a/src/melodia/core/track.py
+++ b/src/melodia/core/track.py
@@ -105,10 +105,11 @@ class Track:
 
         position_transformed = position.to(self._max_denominator)
 
+        end_position = position_transformed + note.duration
+
         heapq.heappush(self._heap, (position_transformed, note))
         self._sorted = False
 
-        end_position = position_transformed + note.duration
         if end_position > self._max_position:
             self._max_position = end_position
 
-- 
2.43.0


From 4d9b03b0a2efb2025b2ac4b13469c9e4da86db28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:29:43 +0000
Subject: [PATCH 10/11] fix: sort track into a new list so that concurrent
 readers see all the notes

---
 src/melodia/core/track.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/melodia/core/track.py b/src/melodia/core/track.py
index 094eb03..e2ece0e 100644
--- a/src/melodia/core/track.py
+++ b/src/melodia/core/track.py
@@ -141,7 +141,7 @@ class Track:
         :return: iterator of (position, note) pairs
         """
         if not self._sorted:
-            self._heap.sort()
+            self._heap = sorted(self._heap)
             self._sorted = True
 
         return iter(self._heap)
-- 
2.43.0


From e869b09fec48c0f2b9eb983bedce0643a7678d3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:45:50 +0000
Subject: [PATCH 11/11] fix: refuse endless variable-length quantities

---
 src/melodia/io/midi.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/melodia/io/midi.py b/src/melodia/io/midi.py
index 388729e..33c2157 100644
--- a/src/melodia/io/midi.py
+++ b/src/melodia/io/midi.py
@@ -425,13 +425,14 @@ class MIDIReader:
 
         result &= 0x7F
 
-        while True:
+        # The specification allows 4 bytes, longer quantities are written for very long gaps between notes
+        for _ in range(15):
             value = int.from_bytes(data.read(1), 'big')
             result = (result << 7) + (value & 0x7F)
             if value & 0x80 == 0:
-                break
+                return result
 
-        return result
+        raise MIDIParsingError('Invalid MIDI file: variable-length quantity is too long')
 
     @staticmethod
     def _read_8(data: _Reader) -> int:
-- 
2.43.0

