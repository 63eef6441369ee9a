From 96f97378a49d1cb7112bb3e4c4eca42308896f6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:25:10 +0000
Subject: [PATCH 01/22] fix: write_wav delivers the whole file or reports an
 error

The RIFF encoder uses Write::write and ignores short writes, so a partly
accepted file was reported as written. Assemble the file in memory, hand it
over with write_all and flush. Refuse channel counts whose frame size does not
fit the header instead of overflowing.
---
 src/utils/mod.rs | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/utils/mod.rs b/src/utils/mod.rs
index 6b6ea99..91b89d3 100644
--- a/src/utils/mod.rs
+++ b/src/utils/mod.rs
@@ -155,6 +155,8 @@ pub fn read_wav(s: &mut dyn std::io::Read) -> std::io::Result<(wav::Header, Vec<
 /// * Anything that [`wav::write_wav`] specifies.
 /// * The channels don't have equal lengths.
 /// * The given vector contains no data.
+/// * There are more channels than the format can describe.
+/// * The destination doesn't accept the whole file.
 /// 
 /// # Example
 /// 
@@ -180,6 +182,11 @@ pub fn write_wav(mut tracks: Vec<SampleTrackT>, bps: u16, d: &mut dyn std::io::W
         return Err(Error::new(ErrorKind::Other, "No channels given, aborting."));
     }
 
+    // The header stores the size of a frame in 16 bits.
+    if tracks.len() > u16::MAX as usize / (bps as usize / 8).max(1) {
+        return Err(Error::new(ErrorKind::Other, "Too many channels given, aborting."));
+    }
+
     let len = tracks[0].len();
 
     for t in &mut tracks {
@@ -197,6 +204,10 @@ pub fn write_wav(mut tracks: Vec<SampleTrackT>, bps: u16, d: &mut dyn std::io::W
         }
     }
 
+    // The encoder doesn't handle partial writes, so the file is assembled in
+    // memory and handed to the destination as a whole.
+    let mut file = Vec::new();
+
     match bps {
         8 => {
             let mut v = Vec::new();
@@ -210,7 +221,7 @@ pub fn write_wav(mut tracks: Vec<SampleTrackT>, bps: u16, d: &mut dyn std::io::W
             wav::write_wav(
                 wav::Header::new(1, tracks.len() as u16, SAMPLE_RATE as u32, bps),
                 wav::BitDepth::Eight(v),
-                d
+                &mut file
             )?;
         },
         16 => {
@@ -225,7 +236,7 @@ pub fn write_wav(mut tracks: Vec<SampleTrackT>, bps: u16, d: &mut dyn std::io::W
             wav::write_wav(
                 wav::Header::new(1, tracks.len() as u16, SAMPLE_RATE as u32, bps),
                 wav::BitDepth::Sixteen(v),
-                d
+                &mut file
             )?;
         },
         24 => {
@@ -240,11 +251,12 @@ pub fn write_wav(mut tracks: Vec<SampleTrackT>, bps: u16, d: &mut dyn std::io::W
             wav::write_wav(
                 wav::Header::new(1, tracks.len() as u16, SAMPLE_RATE as u32, bps),
                 wav::BitDepth::TwentyFour(v),
-                d
+                &mut file
             )?;
         },
         _ => return Err(Error::new(ErrorKind::Other, "Unsupported bit depth, aborting.")),
     }
 
-    Ok(())
+    d.write_all(&file)?;
+    d.flush()
 }
-- 
2.43.0


From 0aa30bad7e03023532d0a5acfbf7ee29b6edb893 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:25:12 +0000
Subject: [PATCH 02/22] fix: keep the sign of 24-bit samples when loading

---
 src/sample_format/mod.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/sample_format/mod.rs b/src/sample_format/mod.rs
index abd2375..7b45e52 100644
--- a/src/sample_format/mod.rs
+++ b/src/sample_format/mod.rs
@@ -134,13 +134,15 @@ pub fn sample_to_i16_bytes(s: SampleT) -> [u8; 2] {
     sample_to_i16(s).to_le_bytes()
 }
 
-/// Converts an i32 24-bit sample to a `SampleT`.
+/// Converts an i32 24-bit sample to a `SampleT`. Only the low 24 bits are used,
+/// the sign is taken from the highest of them.
 pub fn sample_from_i24(v: i32) -> SampleT {
+    let v = (v << 8) >> 8;
     v as SampleT / ((1 << 23) as SampleT - 1.0)
 }
 /// Converts raw bytes to a `SampleT`.
 pub fn sample_from_i24_bytes(v:[u8;3]) -> SampleT {
-    (i32::from_le_bytes([v[0],v[1],v[2],0]) as SampleT) / ((1 << 23) as SampleT - 1.0)
+    sample_from_i24(i32::from_le_bytes([v[0],v[1],v[2],0]))
 }
 
 /// Converts a `SampleT` to an `i24`.
-- 
2.43.0


From 857d12f09536601d72b44b8e016e0bcfa773daf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:25:14 +0000
Subject: [PATCH 03/22] fix: read_wav refuses damaged files and finds its
 chunks anywhere

The decoder panics on truncated input, non-UTF-8 chunk names, odd data and zero
channels, recurses without limit, allocates whatever size a chunk claims and
takes the second chunk for the data whatever it is. Read the RIFF body with a
bounded read, check its structure and pass only the fmt and data chunks on.
---
 src/utils/mod.rs | 75 +++++++++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 74 insertions(+), 1 deletion(-)

diff --git a/src/utils/mod.rs b/src/utils/mod.rs
index 91b89d3..4319fa9 100644
--- a/src/utils/mod.rs
+++ b/src/utils/mod.rs
@@ -88,6 +88,78 @@ pub fn normalize(db: MathT, t: &mut SampleTrackT) {
     }
 }
 
+/// Reads one RIFF file from the given source and returns it reduced to the
+/// `fmt ` and `data` chunks that the decoder expects. Anything that doesn't form
+/// a complete, consistent file is refused, as the decoder can't cope with it.
+fn read_riff(s: &mut dyn std::io::Read) -> std::io::Result<Vec<u8>> {
+    use std::io::{Error, ErrorKind, Read};
+
+    let invalid = |m: &str| Error::new(ErrorKind::InvalidData, m);
+
+    let mut head = [0; 8];
+    s.read_exact(&mut head)?;
+    let len = u32::from_le_bytes([head[4], head[5], head[6], head[7]]);
+    if &head[..4] != b"RIFF" {
+        return Err(invalid("File not a RIFF file"));
+    }
+
+    // Grows with the data that actually arrives, whatever length is claimed.
+    let mut body = Vec::new();
+    s.take(len as u64).read_to_end(&mut body)?;
+    if body.len() < len as usize {
+        return Err(Error::new(ErrorKind::UnexpectedEof, "File ends early"));
+    }
+    if !body.starts_with(b"WAVE") {
+        return Err(invalid("RIFF file type not \"WAVE\""));
+    }
+
+    let mut fmt = None;
+    let mut data = None;
+    let mut rest = &body[4..];
+    while !rest.is_empty() {
+        if rest.len() < 8 {
+            return Err(invalid("Incomplete chunk header"));
+        }
+        let (head, tail) = rest.split_at(8);
+        let size = u32::from_le_bytes([head[4], head[5], head[6], head[7]]) as usize;
+        if size > tail.len() {
+            return Err(invalid("Chunk reaches past the end of the file"));
+        }
+        match &head[..4] {
+            b"fmt " if fmt.is_none() => fmt = Some(&tail[..size]),
+            b"data" if data.is_none() => data = Some(&tail[..size]),
+            _ => (),
+        }
+        rest = &tail[(size + size % 2).min(tail.len())..];
+    }
+
+    let fmt = fmt.ok_or_else(|| invalid("No format chunk"))?;
+    let data = data.ok_or_else(|| invalid("No data chunk"))?;
+    if fmt.len() < 16 {
+        return Err(invalid("Format chunk too short"));
+    }
+    let h = wav::Header::from(fmt);
+    let frame = h.channel_count as usize * (h.bits_per_sample as usize / 8);
+    if frame == 0 || data.len() % frame != 0 {
+        return Err(invalid("Data isn't a whole number of frames"));
+    }
+
+    let mut file = Vec::with_capacity(data.len() + 46);
+    file.extend_from_slice(b"RIFF");
+    file.extend_from_slice(&(36 + (data.len() + data.len() % 2) as u32).to_le_bytes());
+    file.extend_from_slice(b"WAVEfmt ");
+    file.extend_from_slice(&16u32.to_le_bytes());
+    file.extend_from_slice(&fmt[..16]);
+    file.extend_from_slice(b"data");
+    file.extend_from_slice(&(data.len() as u32).to_le_bytes());
+    file.extend_from_slice(data);
+    if data.len() % 2 != 0 {
+        file.push(0);
+    }
+
+    Ok(file)
+}
+
 /// Takes the given path and reads the track data from the WAV file at the given
 /// location.
 /// 
@@ -107,7 +179,8 @@ pub fn normalize(db: MathT, t: &mut SampleTrackT) {
 /// [`TrackT`]: ../../type.TrackT.html
 /// [`wav::read_wav`]: https://docs.rs/wav/0.1.1/wav/fn.read_wav.html
 pub fn read_wav(s: &mut dyn std::io::Read) -> std::io::Result<(wav::Header, Vec<SampleTrackT>)> {
-    let (h, bd) = wav::read_wav(s)?;
+    let file = read_riff(s)?;
+    let (h, bd) = wav::read_wav(&mut file.as_slice())?;
 
     let mut tracks = Vec::new();
     for _ in 0..h.channel_count {
-- 
2.43.0


From ed67309216aabdc47a7694f2d89dce6266a26289 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:31:11 +0000
Subject: [PATCH 04/22] fix: bin2str writes the whole table

---
 utility/bin2str/src/main.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utility/bin2str/src/main.rs b/utility/bin2str/src/main.rs
index 69edf81..cfe1340 100644
--- a/utility/bin2str/src/main.rs
+++ b/utility/bin2str/src/main.rs
@@ -57,7 +57,7 @@ fn main() -> std::io::Result<()> {
         binstr.push_str("\n];\n");
 
         let mut out_file = std::fs::File::create("output.rs")?;
-        out_file.write(binstr.as_bytes())?;
+        out_file.write_all(binstr.as_bytes())?;
     // }
 
     Ok(())
-- 
2.43.0


From e47382d1d9ebfc509d4fd6a03a70e7488d955412 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:37:13 +0000
Subject: [PATCH 05/22] fix: MonoResampler keeps time and stays inside its loop

---
 src/utils/mono_resampler.rs | 26 ++++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/src/utils/mono_resampler.rs b/src/utils/mono_resampler.rs
index 39b9759..393ef1b 100644
--- a/src/utils/mono_resampler.rs
+++ b/src/utils/mono_resampler.rs
@@ -7,14 +7,14 @@ use super::*;
 use sample_format::{SampleFormat, MonoTrackT};
 
 /// Type used for fractional indexing.
-type IndexT = SampleT;
+type IndexT = MathT;
 
 /// Struct tracking all of the data required for resampling, with some extra
 /// features like playback speed and looping.
 pub struct MonoResampler {
     data: MonoTrackT,
     ind: IndexT,
-    inc: SampleT,
+    inc: IndexT,
     speed: MathT,
     loop_start: usize,
     loop_end: usize,
@@ -30,16 +30,25 @@ impl MonoResampler {
     /// * `loop_start` - The start point of looping.
     /// * `loop_end` - The end point of looping. If this value is 0, no looping is assumed.
     /// 
-    /// If `loop_end` is less than `loop_start`, they are swapped.
+    /// If `loop_end` is less than `loop_start`, they are swapped. A `loop_end`
+    /// past the end of the track is moved to the end of the track. If there is
+    /// nothing between `loop_start` and `loop_end`, no looping is assumed.
     pub fn new(data:MonoTrackT, source_sample_rate: MathT, mut loop_start: usize, mut loop_end: usize) -> Self {
         if loop_end < loop_start {
             std::mem::swap(&mut loop_start, &mut loop_end);
         }
 
+        loop_end = loop_end.min(data.len());
+
+        if loop_end <= loop_start {
+            loop_start = 0;
+            loop_end = 0;
+        }
+
         MonoResampler {
             data,
             ind: 0.0,
-            inc: (source_sample_rate as MathT * INV_SAMPLE_RATE) as SampleT,
+            inc: (source_sample_rate as MathT * INV_SAMPLE_RATE) as IndexT,
             speed: 1.0,
             loop_start,
             loop_end,
@@ -62,8 +71,8 @@ impl MonoResampler {
             return SampleT::default();
         }
 
-        let p1: SampleT = if self.ind.trunc() as usize + 1 >= self.data.len() && self.loop_end != 0 {
-            self.data[(self.ind - (self.loop_end - self.loop_start) as IndexT) as usize].into_sample()
+        let p1: SampleT = if self.ind.trunc() as usize + 1 >= self.loop_end && self.loop_end != 0 {
+            self.data[self.loop_start].into_sample()
         } else if self.ind.trunc() as usize + 1 >= self.data.len() {
             self.data[self.ind.trunc() as usize].into_sample()
         } else {
@@ -75,10 +84,11 @@ impl MonoResampler {
 
         let y = x1 + self.ind.fract() as SampleT * (x2 - x1);
 
-        self.ind += self.inc * self.speed as SampleT;
+        self.ind += self.inc * self.speed as IndexT;
 
         if self.ind >= self.loop_end as IndexT && self.loop_end != 0 {
-            self.ind -= (self.loop_end - self.loop_start) as IndexT;
+            self.ind = self.loop_start as IndexT +
+                (self.ind - self.loop_start as IndexT) % (self.loop_end - self.loop_start) as IndexT;
         }
 
         y
-- 
2.43.0


From 43e90a7d68cc63727be52d21fca17c19c3e875bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:37:28 +0000
Subject: [PATCH 06/22] fix: MonoResampler interpolates towards the next frame
 when the position rounds up

---
 src/utils/mono_resampler.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils/mono_resampler.rs b/src/utils/mono_resampler.rs
index 393ef1b..c59f83f 100644
--- a/src/utils/mono_resampler.rs
+++ b/src/utils/mono_resampler.rs
@@ -76,7 +76,7 @@ impl MonoResampler {
         } else if self.ind.trunc() as usize + 1 >= self.data.len() {
             self.data[self.ind.trunc() as usize].into_sample()
         } else {
-            self.data[(self.ind + 1.0).trunc() as usize].into_sample()
+            self.data[self.ind.trunc() as usize + 1].into_sample()
         };
 
         let x1: SampleT = self.data[self.ind.trunc() as usize].into_sample();
-- 
2.43.0


From 4faf185fd805f1ba1ac3750beabd6f31317011e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:39:12 +0000
Subject: [PATCH 07/22] fix: Sine wraps at the end of its table

---
 src/generators/sine.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/generators/sine.rs b/src/generators/sine.rs
index 06121c7..542dbcf 100644
--- a/src/generators/sine.rs
+++ b/src/generators/sine.rs
@@ -59,7 +59,7 @@ impl Generator for Sine {
 
         self.ind += self.inc;
 
-        if self.ind >= (WAVETABLE_SIZE as MathT)-1.0 {
+        if self.ind >= WAVETABLE_SIZE as MathT {
             self.ind -= WAVETABLE_SIZE as MathT;
         }
 
-- 
2.43.0


From 809e946014acfbefc5737e65841c16e8619782cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:39:13 +0000
Subject: [PATCH 08/22] fix: Square keeps its phase when the frequency changes

---
 src/generators/square.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/generators/square.rs b/src/generators/square.rs
index 7a6ad93..1f51b79 100644
--- a/src/generators/square.rs
+++ b/src/generators/square.rs
@@ -19,7 +19,11 @@ impl FreqMod for Square {
     }
 
     fn set_frequency(&mut self, f: MathT) {
-        self.inv = SAMPLE_RATE as MathT/(2.0 * f);
+        let inv = SAMPLE_RATE as MathT/(2.0 * f);
+
+        // `ind` counts samples since the start of the period, keep its phase.
+        self.ind *= inv / self.inv;
+        self.inv = inv;
     }
 
     fn get_frequency(&self) -> MathT {
-- 
2.43.0


From 5daf02637f55b1885d22d7b85721b802bff366a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:39:15 +0000
Subject: [PATCH 09/22] fix: Triangle keeps its direction apart from its
 frequency

---
 src/generators/triangle.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/generators/triangle.rs b/src/generators/triangle.rs
index ecc58d4..ba36e98 100644
--- a/src/generators/triangle.rs
+++ b/src/generators/triangle.rs
@@ -19,11 +19,12 @@ impl FreqMod for Triangle {
     }
 
     fn set_frequency(&mut self, f: MathT) {
-        self.irate = 4.0 * f * INV_SAMPLE_RATE;
+        // The sign of `irate` is the direction of the current slope.
+        self.irate = (4.0 * f * INV_SAMPLE_RATE).copysign(self.irate);
     }
 
     fn get_frequency(&self) -> MathT {
-        self.irate / (4.0 * INV_SAMPLE_RATE)
+        self.irate.abs() / (4.0 * INV_SAMPLE_RATE)
     }
 }
 
@@ -50,7 +51,7 @@ impl Generator for Triangle {
 impl Clone for Triangle {
     fn clone(&self) -> Self {
         Triangle {
-            irate: self.irate,
+            irate: self.irate.abs(),
             inc: 0.0
         }
     }
-- 
2.43.0


From 70bc6dbe2a53c904741f279f1e805c81e65f4023 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:41:10 +0000
Subject: [PATCH 10/22] fix: ADSR reaches every stage in time for any setting
 and always ends

---
 src/modifiers/adsr.rs | 37 ++++++++++++++++++++++++-------------
 1 file changed, 24 insertions(+), 13 deletions(-)

diff --git a/src/modifiers/adsr.rs b/src/modifiers/adsr.rs
index a94f6dd..a1278a0 100644
--- a/src/modifiers/adsr.rs
+++ b/src/modifiers/adsr.rs
@@ -22,12 +22,13 @@ pub enum ADSRState {
 /// 
 /// Creates a simple envelope for the given signal.
 pub struct ADSR {
-    a:SampleT,
-    d:SampleT,
-    s:SampleT,
-    r:SampleT,
+    a:MathT,
+    d:MathT,
+    s:MathT,
+    r:MathT,
     state:ADSRState,
-    g:SampleT,
+    g:MathT,
+    fall:MathT,
 }
 
 impl ADSR {
@@ -41,18 +42,27 @@ impl ADSR {
     /// * `r` - Release time.
     pub fn new(a:Duration,d:Duration,s:MathT,r:Duration) -> Self {
         let s = s.min(0.0);
+        // No stage is shorter than a sample.
+        let samples = |t: Duration| (t.as_secs_f64() * SAMPLE_RATE as MathT).max(1.0);
         ADSR {
-            a: 1.0/(a.as_secs_f64() * SAMPLE_RATE as MathT) as SampleT,
-            d: ((db_to_linear(s)-1.0)/(d.as_secs_f64() * SAMPLE_RATE as MathT)) as SampleT,
-            s: db_to_linear(s) as SampleT,
-            r: ((-db_to_linear(s))/(r.as_secs_f64() * SAMPLE_RATE as MathT)) as SampleT,
+            a: 1.0/samples(a),
+            d: (db_to_linear(s)-1.0)/samples(d),
+            s: db_to_linear(s),
+            r: samples(r),
             state: ADSRState::Attack,
-            g: 0.0
+            g: 0.0,
+            fall: 0.0
         }
     }
 
     /// Changes adsr state to release
     pub fn release(&mut self) {
+        match self.state {
+            ADSRState::Release | ADSRState::Stopped => return,
+            _ => {},
+        }
+
+        self.fall = -self.s.max(self.g)/self.r;
         self.state = ADSRState::Release;
     }
 }
@@ -77,7 +87,7 @@ impl Modifier for ADSR {
             ADSRState::Sustain => {
             },
             ADSRState::Release => {
-                self.g += self.r;
+                self.g += self.fall;
                 if self.g <= 0.0 {
                     self.state = ADSRState::Stopped;
                     self.g = 0.0;
@@ -86,7 +96,7 @@ impl Modifier for ADSR {
             ADSRState::Stopped => return SampleT::default(),
         }
 
-        x * self.g
+        x * self.g as SampleT
     }
 }
 
@@ -98,7 +108,8 @@ impl Clone for ADSR {
             s: self.s,
             r: self.r,
             state: ADSRState::Attack,
-            g: 0.0
+            g: 0.0,
+            fall: 0.0
         }
     }
 }
-- 
2.43.0


From 7376a6f7da31c869dc2013d714b356005aa0dd25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:45:52 +0000
Subject: [PATCH 11/22] fix: LowPass and HighPass keep their state in f64

---
 src/modifiers/highpass.rs | 83 ++++++++++++++++++++-------------------
 src/modifiers/lowpass.rs  | 20 +++++-----
 2 files changed, 52 insertions(+), 51 deletions(-)

diff --git a/src/modifiers/highpass.rs b/src/modifiers/highpass.rs
index 599ffcb..75f0b93 100644
--- a/src/modifiers/highpass.rs
+++ b/src/modifiers/highpass.rs
@@ -8,20 +8,20 @@ use super::*;
 /// High pass filter adapted from the 3rd Order Butterworth Low Pass Filter with
 /// resonance.
 pub struct HighPass {
-    a0: SampleT,
-    a1: SampleT,
-    a2: SampleT,
-    a3: SampleT,
-    b1: SampleT,
-    b2: SampleT,
-    b3: SampleT,
-
-    x1: SampleT,
-    x2: SampleT,
-    x3: SampleT,
-    y1: SampleT,
-    y2: SampleT,
-    y3: SampleT,
+    a0: MathT,
+    a1: MathT,
+    a2: MathT,
+    a3: MathT,
+    b1: MathT,
+    b2: MathT,
+    b3: MathT,
+
+    x1: MathT,
+    x2: MathT,
+    x3: MathT,
+    y1: MathT,
+    y2: MathT,
+    y3: MathT,
 
     fc: MathT,
     r: MathT
@@ -40,19 +40,19 @@ impl HighPass {
         let fc = fc.min(SAMPLE_RATE as MathT / 2.0);
         let r = r.min(1.0).max(0.0);
         let mut hp = HighPass {
-            a0: SampleT::default(),
-            a1: SampleT::default(),
-            a2: SampleT::default(),
-            a3: SampleT::default(),
-            b1: SampleT::default(),
-            b2: SampleT::default(),
-            b3: SampleT::default(),
-            x1: SampleT::default(),
-            x2: SampleT::default(),
-            x3: SampleT::default(),
-            y1: SampleT::default(),
-            y2: SampleT::default(),
-            y3: SampleT::default(),
+            a0: MathT::default(),
+            a1: MathT::default(),
+            a2: MathT::default(),
+            a3: MathT::default(),
+            b1: MathT::default(),
+            b2: MathT::default(),
+            b3: MathT::default(),
+            x1: MathT::default(),
+            x2: MathT::default(),
+            x3: MathT::default(),
+            y1: MathT::default(),
+            y2: MathT::default(),
+            y3: MathT::default(),
             fc,
             r,
         };
@@ -95,19 +95,20 @@ impl HighPass {
         let t = w * INV_SAMPLE_RATE;
         let g = t.powf(3.0) + k*t.powf(2.0) + k*t + 1.0;
 
-        self.a0 = ( 1.0/g) as SampleT;
-        self.a1 = (-3.0/g) as SampleT;
-        self.a2 = ( 3.0/g) as SampleT;
-        self.a3 = (-1.0/g) as SampleT;
+        self.a0 = 1.0/g;
+        self.a1 = -3.0/g;
+        self.a2 = 3.0/g;
+        self.a3 = -1.0/g;
 
-        self.b1 = ((k*t.powf(2.0) + 2.0*k*t + 3.0)/g) as SampleT;
-        self.b2 = ((-k*t - 3.0)/g) as SampleT;
-        self.b3 = (1.0/g) as SampleT;
+        self.b1 = (k*t.powf(2.0) + 2.0*k*t + 3.0)/g;
+        self.b2 = (-k*t - 3.0)/g;
+        self.b3 = 1.0/g;
     }
 }
 
 impl Modifier for HighPass {
     fn process(&mut self, x: SampleT) -> SampleT {
+        let x = x as MathT;
         let y = self.a0*x + self.a1*self.x1 + self.a2*self.x2 + self.a3*self.x3 +
             self.b1*self.y1 + self.b2*self.y2 + self.b3*self.y3;
 
@@ -118,7 +119,7 @@ impl Modifier for HighPass {
         self.y2 = self.y1;
         self.y1 = y;
 
-        y
+        y as SampleT
     }
 }
 
@@ -132,12 +133,12 @@ impl Clone for HighPass {
             b1: self.b1,
             b2: self.b2,
             b3: self.b3,
-            x1: SampleT::default(),
-            x2: SampleT::default(),
-            x3: SampleT::default(),
-            y1: SampleT::default(),
-            y2: SampleT::default(),
-            y3: SampleT::default(),
+            x1: MathT::default(),
+            x2: MathT::default(),
+            x3: MathT::default(),
+            y1: MathT::default(),
+            y2: MathT::default(),
+            y3: MathT::default(),
             fc: self.fc,
             r: self.r,
         }
diff --git a/src/modifiers/lowpass.rs b/src/modifiers/lowpass.rs
index 3810279..44cf4f8 100644
--- a/src/modifiers/lowpass.rs
+++ b/src/modifiers/lowpass.rs
@@ -9,8 +9,8 @@ use super::*;
 pub struct LowPass {
     fc: MathT,
     r: MathT,
-    coeff: [SampleT; 4],
-    outs: [SampleT; 3]
+    coeff: [MathT; 4],
+    outs: [MathT; 3]
 }
 
 impl LowPass {
@@ -30,7 +30,7 @@ impl LowPass {
             fc,
             r,
             coeff: [0.0; 4],
-            outs: [SampleT::default(); 3]
+            outs: [MathT::default(); 3]
         };
 
         lp.reset();
@@ -71,16 +71,16 @@ impl LowPass {
         let t = w * INV_SAMPLE_RATE;
         let g = t.powf(3.0) + k*t.powf(2.0) + k*t + 1.0;
 
-        self.coeff[0] = (t.powf(3.0) / g) as SampleT;
-        self.coeff[1] = ((k*t.powf(2.0) + 2.0*k*t + 3.0) / g) as SampleT;
-        self.coeff[2] = ((-k*t - 3.0) / g) as SampleT;
-        self.coeff[3] = (1.0 / g) as SampleT;
+        self.coeff[0] = t.powf(3.0) / g;
+        self.coeff[1] = (k*t.powf(2.0) + 2.0*k*t + 3.0) / g;
+        self.coeff[2] = (-k*t - 3.0) / g;
+        self.coeff[3] = 1.0 / g;
     }
 }
 
 impl Modifier for LowPass {
     fn process(&mut self, x: SampleT) -> SampleT {
-        let y = self.coeff[0]*x +
+        let y = self.coeff[0]*x as MathT +
                 self.coeff[1]*self.outs[0] +
                 self.coeff[2]*self.outs[1] +
                 self.coeff[3]*self.outs[2];
@@ -89,7 +89,7 @@ impl Modifier for LowPass {
         self.outs[1] = self.outs[0];
         self.outs[0] = y;
 
-        y
+        y as SampleT
     }
 }
 
@@ -99,7 +99,7 @@ impl Clone for LowPass {
             fc: self.fc,
             r: self.r,
             coeff: self.coeff,
-            outs: [SampleT::default(); 3]
+            outs: [MathT::default(); 3]
         }
     }
 }
-- 
2.43.0


From 6996b2d67ae4ae08382ae45258674366b1d96b9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:46:15 +0000
Subject: [PATCH 12/22] fix: BandPass stays stable with a corner beyond the
 Nyquist frequency

---
 src/modifiers/bandpass.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/modifiers/bandpass.rs b/src/modifiers/bandpass.rs
index 3040ebe..2162be1 100644
--- a/src/modifiers/bandpass.rs
+++ b/src/modifiers/bandpass.rs
@@ -115,6 +115,10 @@ impl BandPass {
     fn reset(&mut self) {
         let (fh, fl) = self.get_corner_frequencies();
 
+        // Corners at or above the Nyquist frequency would make the filter unstable.
+        let limit = 0.499 * SAMPLE_RATE as MathT;
+        let (fh, fl) = (fh.min(limit), fl.min(limit));
+
         let theta_l = (std::f64::consts::PI * fl * INV_SAMPLE_RATE).tan();
         let theta_h = (std::f64::consts::PI * fh * INV_SAMPLE_RATE).tan();
 
-- 
2.43.0


From 7e8ef8c9160b82cc84bd99d15dd3d028faca76e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:46:17 +0000
Subject: [PATCH 13/22] fix: Generic accepts its taps in any order

---
 src/modifiers/generic.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/modifiers/generic.rs b/src/modifiers/generic.rs
index 87d4e8d..1162f12 100644
--- a/src/modifiers/generic.rs
+++ b/src/modifiers/generic.rs
@@ -29,12 +29,12 @@ pub struct Generic {
 impl Generic {
     /// Creates a new Generic filter from the given pole and zero parameters.
     pub fn new(zeros: Zeros, poles: Poles) -> Generic {
-        let z_back = if let Some(z) = zeros.back() {
+        let z_back = if let Some(z) = zeros.iter().max_by_key(|z| z.0) {
             z.0 + 1
         } else {
             0
         };
-        let p_back = if let Some(p) = poles.back() {
+        let p_back = if let Some(p) = poles.iter().max_by_key(|p| p.0) {
             p.0 + 1
         } else {
             0
-- 
2.43.0


From ae593c8054e301eea40687b9b4c820176a60af14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:46:19 +0000
Subject: [PATCH 14/22] fix: Echo with a delay below one sample no longer
 panics

---
 src/modifiers/echo.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/modifiers/echo.rs b/src/modifiers/echo.rs
index cfba8e0..d0035a8 100644
--- a/src/modifiers/echo.rs
+++ b/src/modifiers/echo.rs
@@ -12,12 +12,12 @@ pub struct Echo {
 
 impl Echo {
     /// Creates a new ['Echo'] object with the given delay duration and feedback
-    /// amount.
+    /// amount. The shortest possible delay is one sample.
     /// 
     /// [`Echo`]: struct.Echo.html
     pub fn new(d: Duration, g: MathT) -> Self{
         let mut v = VecDeque::new();
-        for _ in 0..((d.as_secs_f64()*SAMPLE_RATE as MathT) as usize) {
+        for _ in 0..((d.as_secs_f64()*SAMPLE_RATE as MathT) as usize).max(1) {
             v.push_back(SampleT::default());
         }
 
-- 
2.43.0


From b758187d44ab55849ce700235f51725f682532f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:00:43 +0000
Subject: [PATCH 15/22] fix: ComplexSound processes every block once, after the
 blocks that feed it

---
 src/sounds/complex_sound.rs | 58 ++++++++++++++++---------------------
 1 file changed, 25 insertions(+), 33 deletions(-)

diff --git a/src/sounds/complex_sound.rs b/src/sounds/complex_sound.rs
index 312cd87..11964f6 100644
--- a/src/sounds/complex_sound.rs
+++ b/src/sounds/complex_sound.rs
@@ -66,7 +66,7 @@ impl ComplexSound {
             )
         );
 
-        ComplexSound {
+        let mut sound = ComplexSound {
             graph,
             process_order: ProcessOrder::new(),
             input_gain,
@@ -74,7 +74,11 @@ impl ComplexSound {
             id: None,
             is_muted: false,
             is_paused: false
-        }
+        };
+
+        sound.process_order();
+
+        sound
     }
 
     /// Returns the ['GraphNode'] containing the input gain [`Modifier`].
@@ -102,7 +106,11 @@ impl ComplexSound {
     /// [`add_connection]: struct.ComplexSound.html#method.add_connection
     /// [`remove_connection]: struct.ComplexSound.html#method.remove_connection
     pub fn add_block(&mut self, block: BlockSP) -> GraphNode {
-        self.graph.add_node(block)
+        let node = self.graph.add_node(block);
+
+        self.process_order();
+
+        node
     }
 
     /// Adds a new connection (edge) between the two given [`GraphNode`]s.
@@ -132,50 +140,34 @@ impl ComplexSound {
     }
 
     /// Processes the graph and constructs the order to process the
-    /// [`GraphNode`]s.
+    /// [`GraphNode`]s. Every node comes after all nodes it is fed by, unless
+    /// they are part of the same cycle. Connections into the input gain and out
+    /// of the output gain count as feedback.
     /// 
     /// [`GraphNode`]: type.GraphNode.html
     fn process_order(&mut self) {
         self.process_order.clear();
 
-        self.process_order.extend(self.graph.externals(petgraph::Direction::Incoming));
-        let mut i = 0;
-        while i < self.process_order.len() {
-            let neighbors = self.graph.neighbors(self.process_order[i]);
-            self.process_order.extend(neighbors);
+        let ig = self.input_gain;
+        let og = self.output_gain;
 
-            let mut j = 0;
-            while j < i {
-                Self::remove_dups(&mut self.process_order, j);
-                j += 1;
-            }
+        let forward = self.graph.filter_map(
+            |_, _| Some(()),
+            |e, _| self.graph.edge_endpoints(e)
+                .filter(|(from, to)| *from != og && *to != ig)
+                .map(|_| ())
+        );
 
-            i += 1;
+        // Strongly connected components are given in reverse topological order.
+        for nodes in petgraph::algo::kosaraju_scc(&forward).into_iter().rev() {
+            self.process_order.extend(nodes);
         }
 
-        let ig = self.input_gain;
-        let og = self.output_gain;
-
         self.process_order.retain(|e| *e != ig && *e != og);
 
         self.process_order.push_front(self.input_gain);
         self.process_order.push_back(self.output_gain);
     }
-
-    /// Removes duplicate [`GraphNode`]s from the process order to prevent parsing cycles
-    /// 
-    /// [`GraphNode`]: type.GraphNode.html
-    fn remove_dups(v: &mut ProcessOrder, whitelist: usize) {
-        let mut i = whitelist + 1;
-
-        while i < v.len() {
-            if v[i] == v[whitelist] {
-                v.remove(i);
-            } else {
-                i += 1;
-            }
-        }
-    }
 }
 
 impl Sound for ComplexSound {
-- 
2.43.0


From b4ac0b6594a11ce232f76d69ebbd07e7f147c6af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:14:09 +0000
Subject: [PATCH 16/22] fix: clones of Delay and Echo are as long as the
 original

---
 src/modifiers/delay.rs | 2 +-
 src/modifiers/echo.rs  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/modifiers/delay.rs b/src/modifiers/delay.rs
index 70ff81d..8078dda 100644
--- a/src/modifiers/delay.rs
+++ b/src/modifiers/delay.rs
@@ -45,7 +45,7 @@ impl Clone for Delay {
             delay: {
                 let mut v = VecDeque::new();
 
-                for _ in 0..(self.delay.len() * SAMPLE_RATE as usize) {
+                for _ in 0..self.delay.len() {
                     v.push_back(SampleT::default());
                 }
 
diff --git a/src/modifiers/echo.rs b/src/modifiers/echo.rs
index d0035a8..ceda0ea 100644
--- a/src/modifiers/echo.rs
+++ b/src/modifiers/echo.rs
@@ -43,7 +43,7 @@ impl Clone for Echo {
             delay: {
                 let mut v = VecDeque::new();
 
-                for _ in 0..(self.delay.len() * SAMPLE_RATE as usize) {
+                for _ in 0..self.delay.len() {
                     v.push_back(SampleT::default());
                 }
 
-- 
2.43.0


From 7cf9d66e7679d70318b7c16cf7d4c2020f41c262 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:14:11 +0000
Subject: [PATCH 17/22] fix: ComplexSound skips blocks that are held elsewhere

---
 src/sounds/complex_sound.rs | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/sounds/complex_sound.rs b/src/sounds/complex_sound.rs
index 11964f6..1835cac 100644
--- a/src/sounds/complex_sound.rs
+++ b/src/sounds/complex_sound.rs
@@ -202,19 +202,26 @@ impl Sound for ComplexSound {
 
         let mut out = Default::default();
 
-        BlockSP::get_mut(
+        if let Some(block) = BlockSP::get_mut(
             self.graph.node_weight_mut(self.input_gain).unwrap()
-        ).unwrap().prime_input(input);
+        ) {
+            block.prime_input(input);
+        }
 
         for b in &self.process_order {
-            let block = BlockSP::get_mut(self.graph.node_weight_mut(*b).unwrap()).unwrap();
-            out = block.process();
+            // A block that is held elsewhere is silent.
+            out = if let Some(block) = BlockSP::get_mut(self.graph.node_weight_mut(*b).unwrap()) {
+                block.process()
+            } else {
+                Default::default()
+            };
 
             let mut neighbors = self.graph.neighbors(*b).detach();
 
             while let Some(t) = neighbors.next(&self.graph) {
-                BlockSP::get_mut(self.graph.node_weight_mut(t.1).unwrap()).unwrap().
-                prime_input(out);
+                if let Some(block) = BlockSP::get_mut(self.graph.node_weight_mut(t.1).unwrap()) {
+                    block.prime_input(out);
+                }
             }
         }
 
-- 
2.43.0


From b3ceb8c3463dfc0cbd83612f60cda394fff2f91a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:16:42 +0000
Subject: [PATCH 18/22] fix: StandardChannel fills its whole buffer anew on
 every call

---
 src/channels/standard_channel.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/channels/standard_channel.rs b/src/channels/standard_channel.rs
index 0b0a1dd..2ea7790 100644
--- a/src/channels/standard_channel.rs
+++ b/src/channels/standard_channel.rs
@@ -14,6 +14,7 @@ pub struct StandardChannel<SF>
     where SF: SampleFormat
 {
     output: Vec<SF>,
+    samples: usize,
     sounds: HashMap<usize, SoundSP>,
     gain: SampleT,
     id_counter: usize
@@ -29,8 +30,11 @@ impl<SF> StandardChannel<SF>
     /// 
     /// [`set_process_time`]: ../trait.Channel.html#tymethod.set_process_time
     pub fn new(gain: MathT) -> Self {
+        let samples = (0.01 * SAMPLE_RATE as MathT) as usize;
+
         StandardChannel {
-            output: Vec::with_capacity((0.01 * SAMPLE_RATE as MathT) as usize),
+            output: Vec::with_capacity(samples),
+            samples,
             sounds: HashMap::new(),
             gain: gain as SampleT,
             id_counter: 0
@@ -50,7 +54,8 @@ impl<SF> Channel<SF> for StandardChannel<SF>
     where SF: SampleFormat
 {
     fn set_process_time(&mut self, d: Duration) {
-        self.output = Vec::with_capacity((d.as_secs_f64() * SAMPLE_RATE as MathT) as usize);
+        self.samples = (d.as_secs_f64() * SAMPLE_RATE as MathT) as usize;
+        self.output = Vec::with_capacity(self.samples);
     }
 
     fn get_output(&self) -> &Vec<SF> {
@@ -62,7 +67,8 @@ impl<SF> Channel<SF> for StandardChannel<SF>
     }
 
     fn process(&mut self) {
-        self.output.resize_with(self.output.len(), SF::default);
+        self.output.clear();
+        self.output.resize_with(self.samples, SF::default);
 
         for sample in &mut self.output {
             for mut sound in &mut self.sounds {
-- 
2.43.0


From 0fae3428574fe2901bf8029ab452c374d86e8c1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:16:57 +0000
Subject: [PATCH 19/22] fix: StandardChannel skips sounds that are held
 elsewhere

---
 src/channels/standard_channel.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/channels/standard_channel.rs b/src/channels/standard_channel.rs
index 2ea7790..d56069e 100644
--- a/src/channels/standard_channel.rs
+++ b/src/channels/standard_channel.rs
@@ -71,8 +71,11 @@ impl<SF> Channel<SF> for StandardChannel<SF>
         self.output.resize_with(self.samples, SF::default);
 
         for sample in &mut self.output {
-            for mut sound in &mut self.sounds {
-                *sample += SF::from_sample(Arc::get_mut(&mut sound.1).unwrap().process(Default::default()));
+            for sound in &mut self.sounds {
+                // A sound that is held elsewhere is silent.
+                if let Some(sound) = Arc::get_mut(sound.1) {
+                    *sample += SF::from_sample(sound.process(Default::default()));
+                }
             }
 
             *sample *= self.gain;
-- 
2.43.0


From 5cd7171833233b5580074ebadf661e56064d6118 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:17:13 +0000
Subject: [PATCH 20/22] fix: StandardChannel unregisters the sounds it removes

---
 src/channels/standard_channel.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/channels/standard_channel.rs b/src/channels/standard_channel.rs
index d56069e..5da9b6f 100644
--- a/src/channels/standard_channel.rs
+++ b/src/channels/standard_channel.rs
@@ -89,6 +89,10 @@ impl<SF> Channel<SF> for StandardChannel<SF>
     }
 
     fn remove_sound(&mut self, id: usize) {
-        self.sounds.remove(&id);
+        if let Some(mut sound) = self.sounds.remove(&id) {
+            if let Some(sound) = SoundSP::get_mut(&mut sound) {
+                sound.unregister();
+            }
+        }
     }
 }
-- 
2.43.0


From 6082bf73a03d1332438fa8a5f9d613777a01f052 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:17:30 +0000
Subject: [PATCH 21/22] fix: StandardChannel mixes its sounds in a fixed order

---
 src/channels/standard_channel.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/channels/standard_channel.rs b/src/channels/standard_channel.rs
index 5da9b6f..271195d 100644
--- a/src/channels/standard_channel.rs
+++ b/src/channels/standard_channel.rs
@@ -3,7 +3,7 @@
 use super::*;
 
 use std::sync::Arc;
-use std::collections::HashMap;
+use std::collections::BTreeMap;
 use crate::sample_format::SampleFormat;
 
 /// Standard implementation of the [`Channel`] trait.
@@ -15,7 +15,7 @@ pub struct StandardChannel<SF>
 {
     output: Vec<SF>,
     samples: usize,
-    sounds: HashMap<usize, SoundSP>,
+    sounds: BTreeMap<usize, SoundSP>,
     gain: SampleT,
     id_counter: usize
 }
@@ -35,7 +35,7 @@ impl<SF> StandardChannel<SF>
         StandardChannel {
             output: Vec::with_capacity(samples),
             samples,
-            sounds: HashMap::new(),
+            sounds: BTreeMap::new(),
             gain: gain as SampleT,
             id_counter: 0
         }
-- 
2.43.0


From 63df556966c58d699a9c77d25eab35f20e118a01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:28:40 +0000
Subject: [PATCH 22/22] fix: StandardBlock leaves out parts that are held
 elsewhere

---
 src/sounds/standard_block.rs | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/sounds/standard_block.rs b/src/sounds/standard_block.rs
index d2db122..80a253c 100644
--- a/src/sounds/standard_block.rs
+++ b/src/sounds/standard_block.rs
@@ -188,10 +188,21 @@ impl Block for StandardBlock {
     }
 
     fn process(&mut self) -> SampleT {
-        let y = Inter::get_mut(&mut self.i).unwrap()(
-            GeneratorSP::get_mut(&mut self.g).unwrap().process(),
-            ModifierSP::get_mut(&mut self.m).unwrap().process(self.input)
-        );
+        // Parts which are held elsewhere are left out: a held generator is
+        // silent, a held modifier is bypassed, and without its interactor the
+        // block is silent.
+        let g = match GeneratorSP::get_mut(&mut self.g) {
+            Some(g) => g.process(),
+            None => SampleT::default(),
+        };
+        let m = match ModifierSP::get_mut(&mut self.m) {
+            Some(m) => m.process(self.input),
+            None => self.input,
+        };
+        let y = match Inter::get_mut(&mut self.i) {
+            Some(i) => i(g, m),
+            None => SampleT::default(),
+        };
 
         self.input = SampleT::default();
 
-- 
2.43.0

