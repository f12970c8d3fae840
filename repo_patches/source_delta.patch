From a259df005e1548319c51608ded3d3d3c7cba3ab5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:27 +0000
Subject: [PATCH 01/19] fix: return an overflow error for durations with values
 larger than u64::MAX

`duration::parse` panicked instead of returning the documented error.
---
 src/duration.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/duration.rs b/src/duration.rs
index 72c2a8c..b243042 100644
--- a/src/duration.rs
+++ b/src/duration.rs
@@ -98,7 +98,6 @@ fn push_value(string: &mut String, value: u64, unit: &str) {
 /// Returns an error if the input is an empty string, does not contain ASCII digits (0-9), contains
 /// an invalid unit (valid units: "h", "m", "s", "ms", "us"), or the value is too large for a
 /// [`Duration`].
-#[allow(clippy::missing_panics_doc)]
 pub fn parse(mut s: &str) -> Result<Duration, ParseDurationError> {
     if s.is_empty() {
         return Err(ParseDurationError::Empty);
@@ -114,7 +113,9 @@ pub fn parse(mut s: &str) -> Result<Duration, ParseDurationError> {
         if value.is_empty() {
             return Err(ParseDurationError::NoDigits(s.to_owned()));
         }
-        let value: u64 = value.parse().expect("value is ASCII digits only");
+        // `value` is one or more ASCII digits, so parsing only fails if it does not fit in a `u64`.
+        #[allow(clippy::map_err_ignore)]
+        let value: u64 = value.parse().map_err(|_| ParseDurationError::Overflow)?;
 
         let (unit, rest) = rest
             .find(|char: char| char.is_ascii_digit())
-- 
2.43.0


From 6aa13a3eb3085c488a0cf624be7aca9a2a4456c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:27 +0000
Subject: [PATCH 02/19] fix: validate port ranges when parsing from a string

Parsing accepted a start greater than the end (e.g. "2-1"), for which
`Range::size()` overflows, and kept an end equal to the start.
---
 src/service/ports.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/service/ports.rs b/src/service/ports.rs
index 4afe19f..eda6e8c 100644
--- a/src/service/ports.rs
+++ b/src/service/ports.rs
@@ -780,10 +780,10 @@ impl FromStr for Range {
             .split_once('-')
             .map_or((s, None), |(start, end)| (start, Some(end)));
 
-        Ok(Self {
-            start: parse_range_int(start)?,
-            end: end.map(parse_range_int).transpose()?,
-        })
+        Ok(Self::new(
+            parse_range_int(start)?,
+            end.map(parse_range_int).transpose()?,
+        )?)
     }
 }
 
-- 
2.43.0


From 6b0f5311d123222772020eed38f5d4c36af72c7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:44 +0000
Subject: [PATCH 03/19] fix: keep the order of resource fields when
 deserializing

The fields of a `Resource` went through a `HashMap`, so its extensions came
out in a random order which differed from run to run.
---
 src/common.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/common.rs b/src/common.rs
index 7d4cd6e..a6695da 100644
--- a/src/common.rs
+++ b/src/common.rs
@@ -5,7 +5,6 @@ mod short_or_long;
 
 use std::{
     borrow::Cow,
-    collections::HashMap,
     fmt::{self, Display, Formatter, LowerExp, UpperExp},
     hash::Hash,
     num::{ParseFloatError, ParseIntError, TryFromIntError},
@@ -965,10 +964,10 @@ impl<T: Serialize> Serialize for Resource<T> {
 
 impl<'de, T: Deserialize<'de>> Deserialize<'de> for Resource<T> {
     fn deserialize<D: Deserializer<'de>>(deserializer: D) -> Result<Self, D::Error> {
-        let mut map = HashMap::<String, YamlValue>::deserialize(deserializer)?;
+        let mut map = IndexMap::<String, YamlValue>::deserialize(deserializer)?;
 
         let external = map
-            .remove(Self::EXTERNAL)
+            .shift_remove(Self::EXTERNAL)
             .map(bool::deserialize)
             .transpose()
             .map_err(de::Error::custom)?
@@ -976,7 +975,7 @@ impl<'de, T: Deserialize<'de>> Deserialize<'de> for Resource<T> {
 
         if external {
             let name = map
-                .remove(Self::NAME)
+                .shift_remove(Self::NAME)
                 .map(String::deserialize)
                 .transpose()
                 .map_err(de::Error::custom)?;
-- 
2.43.0


From 1aa9e82b2eee09aea162fedf8d5f63f45efb756f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:53 +0000
Subject: [PATCH 04/19] fix: record where the tag or digest starts in
 Image::from_parts

The start was taken after the tag or digest was pushed, so it pointed past
the end of the image and accessing the name, tag, or digest panicked.
---
 src/service/image.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/service/image.rs b/src/service/image.rs
index 25588b4..27790b4 100644
--- a/src/service/image.rs
+++ b/src/service/image.rs
@@ -142,8 +142,9 @@ impl Image {
         inner.push_str(name);
 
         let tag_or_digest_start = tag_or_digest.map(|tag_or_digest| {
+            let start = tag_or_digest.as_start(inner.len());
             tag_or_digest.push_to_string(&mut inner);
-            tag_or_digest.as_start(inner.len())
+            start
         });
 
         Self {
-- 
2.43.0


From 24b7306d7defe42d28f29ba9fd0f893d542c026a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:15 +0000
Subject: [PATCH 05/19] fix: do not panic when removing a registry which is the
 entire image name

`Image::set_registry(None)` removed the byte after the registry, expecting it
to be a slash. For "quay.io" it panicked, for "quay.io:tag" it left "tag".
---
 src/service/image.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/service/image.rs b/src/service/image.rs
index 27790b4..f77073f 100644
--- a/src/service/image.rs
+++ b/src/service/image.rs
@@ -189,6 +189,8 @@ impl Image {
 
     /// Set the registry portion of the image name, use [`None`] to remove it.
     ///
+    /// If the registry is the entire name, it is not removed as image names cannot be empty.
+    ///
     /// # Examples
     ///
     /// ```
@@ -225,6 +227,8 @@ impl Image {
                 self.registry_end = Some(registry.len());
                 self.update_tag_or_digest_start(0, registry.len() + 1);
             }
+            // Registry is the entire name, it cannot be removed without leaving the name empty
+            (None, Some(end)) if end == self.name_end() => {}
             // Remove registry
             (None, Some(mut end)) => {
                 // Add one to end for '/' separator.
-- 
2.43.0


From 8d7de88095a1b6a8c87eafdb628a9915963fcb62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:15 +0000
Subject: [PATCH 06/19] fix: parse a build cache which only has a type

"type=gha" is in the documented format and is what such a `Cache` is
serialized to, but it was parsed as an image and rejected.
---
 src/service/build/cache.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/service/build/cache.rs b/src/service/build/cache.rs
index b42afb9..5b028a6 100644
--- a/src/service/build/cache.rs
+++ b/src/service/build/cache.rs
@@ -44,7 +44,7 @@ impl Cache {
     where
         T: AsRef<str> + Into<String>,
     {
-        if cache.as_ref().contains(',') {
+        if cache.as_ref().contains(',') || cache.as_ref().starts_with("type=") {
             Self::parse_str(cache.as_ref())
         } else {
             Image::parse(cache)
-- 
2.43.0


From b34adfc9af080e968662c66ef2ae87ea3028f5c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:15 +0000
Subject: [PATCH 07/19] fix: do not drop read_only when converting a volume
 mount to the short syntax

An anonymous volume cannot be read-only in the short syntax.
---
 src/service/volumes/mount.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/service/volumes/mount.rs b/src/service/volumes/mount.rs
index d289dd1..a33263e 100644
--- a/src/service/volumes/mount.rs
+++ b/src/service/volumes/mount.rs
@@ -283,7 +283,11 @@ impl Volume {
                         consistency: None,
                         extensions,
                     },
-            } if volume.as_ref().map_or(true, VolumeOptions::is_empty) && extensions.is_empty() => {
+            } if volume.as_ref().map_or(true, VolumeOptions::is_empty)
+                && extensions.is_empty()
+                // The short syntax only has options when there is a source.
+                && (source.is_some() || !read_only) =>
+            {
                 Ok(ShortVolume {
                     container_path,
                     options: source.map(|source| ShortOptions {
-- 
2.43.0


From e996e0fb7e60182d06bf12248b1f3d25e69af6df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:15 +0000
Subject: [PATCH 08/19] fix: display volumes_from containers named "ro" or "rw"
 unambiguously

"container:ro:rw" was displayed as "container:ro", which is parsed as the
read-only volumes of a service named "container".
---
 src/service.rs | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/service.rs b/src/service.rs
index 363a613..22a3829 100644
--- a/src/service.rs
+++ b/src/service.rs
@@ -1441,6 +1441,17 @@ impl VolumesFrom {
     /// Suffix which marks the source volumes as read-only.
     const READ_ONLY_SUFFIX: &'static str = ":ro";
 
+    /// Suffix which marks the source volumes as read-write, the default.
+    const READ_WRITE_SUFFIX: &'static str = ":rw";
+
+    /// Returns `true` if the end of `source`, when displayed, would be parsed as a suffix.
+    fn source_ends_with_suffix(source: &VolumesFromSource) -> bool {
+        matches!(
+            source,
+            VolumesFromSource::Container(container) if matches!(container.as_str(), "ro" | "rw")
+        )
+    }
+
     /// Parse a [`VolumesFrom`] from a string in the format `[container:]{identifier}[:ro|rw]`.
     ///
     /// # Errors
@@ -1464,7 +1475,7 @@ impl VolumesFrom {
             .unwrap_or_else(|| {
                 volumes_from
                     .as_ref()
-                    .strip_suffix(":rw")
+                    .strip_suffix(Self::READ_WRITE_SUFFIX)
                     .map(str::parse)
                     .unwrap_or_else(|| VolumesFromSource::parse(volumes_from))
                     .map(Into::into)
@@ -1482,6 +1493,8 @@ impl Display for VolumesFrom {
 
         if *read_only {
             f.write_str(Self::READ_ONLY_SUFFIX)?;
+        } else if Self::source_ends_with_suffix(source) {
+            f.write_str(Self::READ_WRITE_SUFFIX)?;
         }
 
         Ok(())
@@ -1499,7 +1512,7 @@ impl From<VolumesFromSource> for VolumesFrom {
 
 impl From<VolumesFrom> for String {
     fn from(value: VolumesFrom) -> Self {
-        if value.read_only {
+        if value.read_only || VolumesFrom::source_ends_with_suffix(&value.source) {
             value.to_string()
         } else {
             value.source.into()
-- 
2.43.0


From add144870da83f59fb8ac96fe4fd00232f66ba7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:37 +0000
Subject: [PATCH 09/19] fix: display both digits of the first byte of a MAC
 address

"0a:00:00:00:00:01" was displayed as "a:00:00:00:00:01", which is not a valid
MAC address.
---
 src/service/network_config.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/service/network_config.rs b/src/service/network_config.rs
index 4e93f24..3c47d0f 100644
--- a/src/service/network_config.rs
+++ b/src/service/network_config.rs
@@ -3,7 +3,7 @@
 
 use std::{
     borrow::Cow,
-    fmt::{self, Display, Formatter, LowerHex},
+    fmt::{self, Display, Formatter},
     net::{IpAddr, Ipv4Addr, Ipv6Addr},
     num::ParseIntError,
     str::{FromStr, Split},
@@ -559,7 +559,7 @@ impl Display for MacAddress {
         let mut iter = self.0.iter();
 
         if let Some(byte) = iter.next() {
-            LowerHex::fmt(byte, f)?;
+            write!(f, "{byte:02x}")?;
         }
 
         for byte in iter {
-- 
2.43.0


From 954bfe4038f572c3fe937b3865eb3f6e2cd26ca0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:37 +0000
Subject: [PATCH 10/19] fix: deserialize cpus from integers

Deserializers for self-describing formats call `visit_u64` or `visit_i64` for
integers, which were not implemented, so `cpus: 2` was rejected.
---
 src/service/deploy/resources.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/service/deploy/resources.rs b/src/service/deploy/resources.rs
index 8af32bd..6e0ab33 100644
--- a/src/service/deploy/resources.rs
+++ b/src/service/deploy/resources.rs
@@ -315,6 +315,14 @@ impl<'de> Visitor<'de> for CpusVisitor {
         Ok(v.into())
     }
 
+    fn visit_u64<E: de::Error>(self, v: u64) -> Result<Self::Value, E> {
+        self.visit_u32(v.try_into().map_err(E::custom)?)
+    }
+
+    fn visit_i64<E: de::Error>(self, v: i64) -> Result<Self::Value, E> {
+        self.visit_i32(v.try_into().map_err(E::custom)?)
+    }
+
     forward_visitor! {
         visit_f64,
         visit_i8: i8,
-- 
2.43.0


From ac3d82f04b41e03852203677e5b0b71ad18ffb8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:47 +0000
Subject: [PATCH 11/19] fix: make healthcheck parsing independent of the order
 of disable and test

`disable: false` with `test: [NONE]` was accepted when `disable` came first
but was a duplicate field error when `test` came first.
---
 src/service/healthcheck.rs | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/src/service/healthcheck.rs b/src/service/healthcheck.rs
index 630ef11..731de9f 100644
--- a/src/service/healthcheck.rs
+++ b/src/service/healthcheck.rs
@@ -68,7 +68,8 @@ impl<'de> de::Visitor<'de> for Visitor {
     }
 
     fn visit_map<A: MapAccess<'de>>(self, mut map: A) -> Result<Self::Value, A::Error> {
-        let mut disable = None;
+        let mut disable: Option<bool> = None;
+        let mut test_none = false;
         let mut test = None;
         let mut interval = None;
         let mut timeout = None;
@@ -86,7 +87,7 @@ impl<'de> de::Visitor<'de> for Visitor {
                 Field::Test => {
                     check_duplicate(&test, "test")?;
                     map.next_value_seed(DisableOrTest {
-                        disable: &mut disable,
+                        test_none: &mut test_none,
                         test: &mut test,
                     })?;
                 }
@@ -118,7 +119,13 @@ impl<'de> de::Visitor<'de> for Visitor {
             }
         }
 
-        if disable.unwrap_or_default() {
+        if disable.unwrap_or_default() && test_none {
+            return Err(de::Error::custom(
+                "cannot set `disable` to `true` and `test` to `NONE`",
+            ));
+        }
+
+        if disable.unwrap_or_default() || test_none {
             if test.is_none()
                 && interval.is_none()
                 && timeout.is_none()
@@ -189,8 +196,8 @@ enum Field {
 ///
 /// If `test` is set to `NONE`, then [`Healthcheck::Disable`] is deserialized.
 struct DisableOrTest<'a> {
-    /// `disable` field.
-    disable: &'a mut Option<bool>,
+    /// Whether the `test` field is set to `NONE`.
+    test_none: &'a mut bool,
 
     /// `test` field.
     test: &'a mut Option<Test>,
@@ -248,13 +255,12 @@ impl<'a, 'de> de::Visitor<'de> for DisableOrTest<'a> {
                 }
             }
             TestKind::None => {
-                if self.disable.unwrap_or_default() {
+                if *self.test_none {
                     Err(de::Error::custom(
-                        "cannot set `disable` to `true` and `test` to `NONE` \
-                            or set `test` to `NONE` multiple times",
+                        "cannot set `test` to `NONE` multiple times",
                     ))
                 } else {
-                    *self.disable = Some(true);
+                    *self.test_none = true;
 
                     if seq.next_element::<String>()?.is_none() {
                         Ok(())
-- 
2.43.0


From b0cc8ae8df6684669eb2230fe993d2109cd4205d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:04 +0000
Subject: [PATCH 12/19] fix: count volumes once per service in validate_volumes

A named volume mounted twice by one service was reported as used across
multiple services.
---
 src/lib.rs | 33 +++++++++++++++------------------
 1 file changed, 15 insertions(+), 18 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index ba62b45..5cfb5e7 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -299,26 +299,23 @@ impl Compose {
     ///
     /// Only the first undefined named volume is listed in the error's [`Display`] output.
     pub fn validate_volumes(&self) -> Result<(), ValidationError> {
-        let volumes = self
-            .services
-            .values()
-            .flat_map(|service| service::volumes::named_volumes_iter(&service.volumes));
-
+        // Index of the first service each volume was seen in.
         let mut seen_volumes = HashMap::new();
-        for volume in volumes {
-            match seen_volumes.entry(volume) {
-                Entry::Occupied(mut entry) => {
-                    if !entry.get() && !self.volumes.contains_key(volume) {
-                        return Err(ValidationError {
-                            service: None,
-                            resource: volume.clone(),
-                            kind: ResourceKind::Volume,
-                        });
+        for (index, service) in self.services.values().enumerate() {
+            for volume in service::volumes::named_volumes_iter(&service.volumes) {
+                match seen_volumes.entry(volume) {
+                    Entry::Occupied(entry) => {
+                        if *entry.get() != index && !self.volumes.contains_key(volume) {
+                            return Err(ValidationError {
+                                service: None,
+                                resource: volume.clone(),
+                                kind: ResourceKind::Volume,
+                            });
+                        }
+                    }
+                    Entry::Vacant(entry) => {
+                        entry.insert(index);
                     }
-                    *entry.get_mut() = true;
-                }
-                Entry::Vacant(entry) => {
-                    entry.insert(false);
                 }
             }
         }
-- 
2.43.0


From 8668869d865308e16e7107a6cb903a9b4998596f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:05 +0000
Subject: [PATCH 13/19] fix: do not overflow on the range of all ports

Parsing `0-65535:0-65535` panicked when overflow checks are enabled.
---
 src/service/ports.rs | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/service/ports.rs b/src/service/ports.rs
index eda6e8c..b2ad715 100644
--- a/src/service/ports.rs
+++ b/src/service/ports.rs
@@ -474,12 +474,11 @@ impl ShortRanges {
 /// Returns an error if the range sizes are not equal.
 fn range_size_eq(host: Option<Range>, container: Range) -> Result<(), ShortRangesError> {
     if let Some(host) = host {
-        let host_size = host.size();
-        let container_size = container.size();
-        if host_size != container_size {
+        // The number of ports after the start is compared as `size()` is saturating.
+        if host.len_after_start() != container.len_after_start() {
             return Err(ShortRangesError {
-                host_size,
-                container_size,
+                host_size: host.size(),
+                container_size: container.size(),
             });
         }
     }
@@ -661,6 +660,9 @@ impl Range {
 
     /// Size of the port range.
     ///
+    /// The size of the range of all ports (`0-65535`) does not fit in a [`u16`], [`u16::MAX`] is
+    /// returned for it.
+    ///
     /// # Examples
     ///
     /// ```
@@ -678,7 +680,12 @@ impl Range {
     /// ```
     #[must_use]
     pub fn size(&self) -> u16 {
-        self.end.map_or(1, |end| end - self.start + 1)
+        self.len_after_start().saturating_add(1)
+    }
+
+    /// Number of ports in the range after the start.
+    fn len_after_start(self) -> u16 {
+        self.end.map_or(0, |end| end - self.start)
     }
 }
 
-- 
2.43.0


From d796a2c71ecdec0271258b2cb7c03235417e20e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:10 +0000
Subject: [PATCH 14/19] fix: treat an empty list and an empty map as the same
 ListOrMap

Empty ListOrMap fields are not serialized and are read back as an empty list.
---
 src/common.rs | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/common.rs b/src/common.rs
index a6695da..a69666b 100644
--- a/src/common.rs
+++ b/src/common.rs
@@ -139,7 +139,9 @@ where
 }
 
 /// A list of unique strings or a map with optional single values.
-#[derive(Serialize, Debug, Clone, PartialEq)]
+///
+/// An empty list and an empty map are equal.
+#[derive(Serialize, Debug, Clone)]
 #[serde(untagged)]
 pub enum ListOrMap {
     /// List of unique strings.
@@ -152,6 +154,17 @@ pub enum ListOrMap {
 /// Map with optional single values.
 pub type Map = IndexMap<MapKey, Option<Value>>;
 
+impl PartialEq for ListOrMap {
+    fn eq(&self, other: &Self) -> bool {
+        match (self, other) {
+            (Self::List(list), Self::List(other)) => list == other,
+            (Self::Map(map), Self::Map(other)) => map == other,
+            // Empty lists and maps are not serialized in fields, so they cannot be told apart.
+            _ => self.is_empty() && other.is_empty(),
+        }
+    }
+}
+
 impl ListOrMap {
     /// Returns `true` if the list or map contain no elements.
     #[must_use]
-- 
2.43.0


From 3f27d1083b0d63ed187c535dd0d98288e41b9af2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:23 +0000
Subject: [PATCH 15/19] fix: write depends_on when it is an empty map

An empty map is not the default, so leaving it out changes the value.
---
 src/service.rs | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/service.rs b/src/service.rs
index 22a3829..fd029a1 100644
--- a/src/service.rs
+++ b/src/service.rs
@@ -949,12 +949,9 @@ impl<'a> AsShortIter<'a> for IndexMap<Identifier, Dependency> {
     }
 }
 
-/// Returns `true` if `depends_on` is empty.
+/// Returns `true` if `depends_on` is the default, an empty list.
 fn depends_on_is_empty(depends_on: &DependsOn) -> bool {
-    match depends_on {
-        ShortOrLong::Short(short) => short.is_empty(),
-        ShortOrLong::Long(long) => long.is_empty(),
-    }
+    matches!(depends_on, ShortOrLong::Short(short) if short.is_empty())
 }
 
 /// Share common configurations among different [`Service`]s or [`Compose`](super::Compose) files.
-- 
2.43.0


From 8f145c2d2f80ab76cb2578e4448bd645e212a9c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:05 +0000
Subject: [PATCH 16/19] fix: reject unknown keys in structs without extensions

---
 src/include.rs              | 1 +
 src/service.rs              | 2 ++
 src/service/blkio_config.rs | 4 ++++
 src/service/develop.rs      | 1 +
 src/service/env_file.rs     | 1 +
 5 files changed, 9 insertions(+)

diff --git a/src/include.rs b/src/include.rs
index b619ef9..e151e23 100644
--- a/src/include.rs
+++ b/src/include.rs
@@ -11,6 +11,7 @@ use crate::{common::ItemOrList, AsShort};
 ///
 /// [compose-spec](https://github.com/compose-spec/compose-spec/blob/master/14-include.md)
 #[derive(Serialize, Deserialize, Debug, Clone, PartialEq, Eq)]
+#[serde(deny_unknown_fields)]
 pub struct Include {
     /// The location of the Compose file(s) to be parsed and included into the local Compose model.
     ///
diff --git a/src/service.rs b/src/service.rs
index fd029a1..43a2cdb 100644
--- a/src/service.rs
+++ b/src/service.rs
@@ -880,6 +880,7 @@ pub type DependsOn = ShortOrLong<IndexSet<Identifier>, IndexMap<Identifier, Depe
 #[derive(
     Serialize, Deserialize, Debug, compose_spec_macros::Default, Clone, Copy, PartialEq, Eq,
 )]
+#[serde(deny_unknown_fields)]
 pub struct Dependency {
     /// Condition under which the dependency is considered satisfied.
     pub condition: Condition,
@@ -958,6 +959,7 @@ fn depends_on_is_empty(depends_on: &DependsOn) -> bool {
 ///
 /// [compose-spec](https://github.com/compose-spec/compose-spec/blob/master/05-services.md#extends)
 #[derive(Serialize, Deserialize, Debug, Clone, PartialEq, Eq)]
+#[serde(deny_unknown_fields)]
 pub struct Extends {
     /// Name of the [`Service`] referenced as a base.
     pub service: Identifier,
diff --git a/src/service/blkio_config.rs b/src/service/blkio_config.rs
index 87b1f35..11a9661 100644
--- a/src/service/blkio_config.rs
+++ b/src/service/blkio_config.rs
@@ -15,6 +15,7 @@ use super::{AbsolutePath, ByteValue};
 ///
 /// [compose-spec](https://github.com/compose-spec/compose-spec/blob/master/05-services.md#blkio_config)
 #[derive(Serialize, Deserialize, Debug, Default, Clone, PartialEq, Eq)]
+#[serde(deny_unknown_fields)]
 pub struct BlkioConfig {
     /// Limit in bytes per second for read operations on a given device.
     ///
@@ -79,6 +80,7 @@ impl BlkioConfig {
 ///
 /// [compose-spec](https://github.com/compose-spec/compose-spec/blob/master/05-services.md#device_read_bps-device_write_bps)
 #[derive(Serialize, Deserialize, Debug, Clone, PartialEq, Eq)]
+#[serde(deny_unknown_fields)]
 pub struct BpsLimit {
     /// Symbolic path to the affected device.
     pub path: AbsolutePath,
@@ -91,6 +93,7 @@ pub struct BpsLimit {
 ///
 /// [compose-spec](https://github.com/compose-spec/compose-spec/blob/master/05-services.md#device_read_iops-device_write_iops)
 #[derive(Serialize, Deserialize, Debug, Clone, PartialEq, Eq)]
+#[serde(deny_unknown_fields)]
 pub struct IopsLimit {
     /// Symbolic path to the affected device.
     pub path: AbsolutePath,
@@ -103,6 +106,7 @@ pub struct IopsLimit {
 ///
 /// [compose-spec](https://github.com/compose-spec/compose-spec/blob/master/05-services.md#weight_device)
 #[derive(Serialize, Deserialize, Debug, Clone, PartialEq, Eq)]
+#[serde(deny_unknown_fields)]
 pub struct WeightDevice {
     /// Symbolic path to the affected device.
     pub path: AbsolutePath,
diff --git a/src/service/develop.rs b/src/service/develop.rs
index 2c20992..1c77a46 100644
--- a/src/service/develop.rs
+++ b/src/service/develop.rs
@@ -15,6 +15,7 @@ use super::AbsolutePath;
 ///
 /// [compose-spec](https://github.com/compose-spec/compose-spec/blob/master/develop.md)
 #[derive(Serialize, Deserialize, Debug, Default, Clone, PartialEq, Eq)]
+#[serde(deny_unknown_fields)]
 pub struct Develop {
     /// List of rules that control automatic service updates based on local file changes.
     ///
diff --git a/src/service/env_file.rs b/src/service/env_file.rs
index f9cd902..9518f1f 100644
--- a/src/service/env_file.rs
+++ b/src/service/env_file.rs
@@ -88,6 +88,7 @@ impl<'de> Deserialize<'de> for EnvFile {
 ///
 /// [compose-spec](https://github.com/compose-spec/compose-spec/blob/master/05-services.md#env_file)
 #[derive(Serialize, Deserialize, AsShort, FromShort, Debug, Clone, PartialEq, Eq)]
+#[serde(deny_unknown_fields)]
 pub struct Config {
     /// Path of the environment file on the host, relative to the [`Compose`](crate::Compose) file's
     /// directory.
-- 
2.43.0


From db2311e9448e980817d7826acd4005e2b8372380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:32 +0000
Subject: [PATCH 17/19] fix: merge keys of merged mappings and keep the order
 of the others

---
 src/options.rs | 25 ++++++++++++++++++++++++-
 1 file changed, 24 insertions(+), 1 deletion(-)

diff --git a/src/options.rs b/src/options.rs
index 4844aea..d261189 100644
--- a/src/options.rs
+++ b/src/options.rs
@@ -101,8 +101,31 @@ impl Options {
     /// Returns an error if deserialization fails.
     pub fn from_yaml_value(&self, mut value: YamlValue) -> serde_yaml::Result<Compose> {
         if self.apply_merge {
-            value.apply_merge()?;
+            apply_merge(&mut value)?;
         }
         serde_yaml::from_value(value)
     }
 }
+
+/// Merge all `<<` keys in the `value`.
+///
+/// Unlike only calling [`YamlValue::apply_merge()`], this also merges `<<` keys of merged mappings
+/// and keeps the order of the other keys.
+fn apply_merge(value: &mut YamlValue) -> serde_yaml::Result<()> {
+    match value {
+        YamlValue::Sequence(sequence) => sequence.iter_mut().try_for_each(apply_merge),
+        YamlValue::Mapping(mapping) => {
+            mapping.values_mut().try_for_each(apply_merge)?;
+
+            if let Some(merge) = mapping.shift_remove("<<") {
+                // `YamlValue::apply_merge()` replaces the `<<` key with the last key.
+                mapping.insert("<<".into(), merge);
+                value.apply_merge()?;
+            }
+
+            Ok(())
+        }
+        YamlValue::Tagged(tagged) => apply_merge(&mut tagged.value),
+        _ => Ok(()),
+    }
+}
-- 
2.43.0


From 3137886f631ee82c4025073d6f5c15a917a92c35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:52 +0000
Subject: [PATCH 18/19] fix: reject reversed ranges in a cpuset

A range such as 3-1 was read as no CPUs at all.
---
 src/service/cpuset.rs | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/service/cpuset.rs b/src/service/cpuset.rs
index e391d5f..f12553b 100644
--- a/src/service/cpuset.rs
+++ b/src/service/cpuset.rs
@@ -80,6 +80,12 @@ impl FromStr for CpuSet {
             if let Some((start, end)) = range.split_once('-') {
                 let start: u64 = start.parse().map_err(parse_int_err(start))?;
                 let end = end.parse().map_err(parse_int_err(end))?;
+                if start > end {
+                    return Err(ParseCpuSetError {
+                        value: range.to_owned(),
+                        source: None,
+                    });
+                }
                 inner.extend(start..=end);
             } else {
                 let cpu = range.parse().map_err(parse_int_err(range))?;
@@ -94,17 +100,20 @@ impl FromStr for CpuSet {
 /// Closure which constructs a [`ParseCpuSetError`] from a [`ParseIntError`] and a `value`.
 fn parse_int_err(value: &str) -> impl FnOnce(ParseIntError) -> ParseCpuSetError {
     let value = value.to_owned();
-    |source| ParseCpuSetError { value, source }
+    |source| ParseCpuSetError {
+        value,
+        source: Some(source),
+    }
 }
 
 /// Error returned when parsing a [`CpuSet`] from a string.
 #[derive(Error, Debug, Clone, PartialEq, Eq)]
-#[error("could not parse `{value}` as an integer")]
+#[error("could not parse `{value}` as an integer or a range from low to high")]
 pub struct ParseCpuSetError {
     /// Value attempted to parse.
     value: String,
-    /// Parse error.
-    source: ParseIntError,
+    /// Parse error, [`None`] if the range is reversed.
+    source: Option<ParseIntError>,
 }
 
 impl TryFrom<&str> for CpuSet {
-- 
2.43.0


From d6e47e3a734eb7e2246f6a3c45a739f27448e090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:18 +0000
Subject: [PATCH 19/19] fix: keep additional contexts of a list as strings

The list form went through Value::parse(), which turned a path like
"1.10" or "007" into the number's text, "1.1" or "7".
---
 src/service/build.rs | 36 +++++++++++++++++++++++++-----------
 1 file changed, 25 insertions(+), 11 deletions(-)

diff --git a/src/service/build.rs b/src/service/build.rs
index d42e1bb..f002cd4 100644
--- a/src/service/build.rs
+++ b/src/service/build.rs
@@ -257,15 +257,29 @@ fn additional_contexts<'de, D>(deserializer: D) -> Result<IndexMap<MapKey, Conte
 where
     D: Deserializer<'de>,
 {
-    Ok(ListOrMap::deserialize(deserializer)?
-        .into_map()
-        .map_err(de::Error::custom)?
-        .into_iter()
-        .map(|(key, value)| {
-            let value = value
-                .map(String::from)
-                .map_or_else(Context::default, Context::from);
-            (key, value)
-        })
-        .collect())
+    match ListOrMap::deserialize(deserializer)? {
+        // Keep list values as strings, e.g. `Value::parse()` would turn the path "1.10" into "1.1".
+        ListOrMap::List(list) => list
+            .into_iter()
+            .map(|item| {
+                let (key, value) = item.split_once('=').unwrap_or((&item, ""));
+                let key = key.parse().map_err(de::Error::custom)?;
+                let value = if value.is_empty() {
+                    Context::default()
+                } else {
+                    value.into()
+                };
+                Ok((key, value))
+            })
+            .collect(),
+        ListOrMap::Map(map) => Ok(map
+            .into_iter()
+            .map(|(key, value)| {
+                let value = value
+                    .map(String::from)
+                    .map_or_else(Context::default, Context::from);
+                (key, value)
+            })
+            .collect()),
+    }
 }
-- 
2.43.0

