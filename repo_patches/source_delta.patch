From f3e0ee305e51c33dedcf8ec375fde05f9f3821e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:41 +0000
Subject: [PATCH 01/86] fix: return the result of Event.allTagsAreEqualWith

---
 gsapi/gspattern.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gsapi/gspattern.py b/gsapi/gspattern.py
index 92962a9..6066583 100644
--- a/gsapi/gspattern.py
+++ b/gsapi/gspattern.py
@@ -144,7 +144,7 @@ class Event(object):
             bool: True if tags are equal.
 
         """
-        self.isTag(myEvent.tag)
+        return self.isTag(myEvent.tag)
 
     def endTime(self):
         """Get the time at which the Event ends.
-- 
2.43.0


From ae252943bc058463d8df590ff693ea968f83d6db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:41 +0000
Subject: [PATCH 02/86] fix: return the events found by
 Pattern.getIdenticalEvents

---
 gsapi/gspattern.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/gsapi/gspattern.py b/gsapi/gspattern.py
index 6066583..c93d07f 100644
--- a/gsapi/gspattern.py
+++ b/gsapi/gspattern.py
@@ -659,6 +659,7 @@ class Pattern(object):
                     e) if allTagsMustBeEquals else event.hasCommonTagWith(e)
             if equals:
                 res += [e]
+        return res
 
     def getFilledWithSilences(self, maxSilenceTime=0, perTag=False, silenceTag='silence'):
         pattern = self.copy()
-- 
2.43.0


From 176c7d2017ef18fa4495134f16c3697405e07907 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:41 +0000
Subject: [PATCH 03/86] fix: lastNoteOff is the latest end, not the end of the
 last event to start

---
 gsapi/gspattern.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gsapi/gspattern.py b/gsapi/gspattern.py
index c93d07f..9771f0f 100644
--- a/gsapi/gspattern.py
+++ b/gsapi/gspattern.py
@@ -679,7 +679,7 @@ class Pattern(object):
         """
         if len(self.events):
             self.reorderEvents()
-            return self.events[-1].duration + self.events[-1].startTime
+            return max(e.endTime() for e in self.events)
         else:
             return None
 
-- 
2.43.0


From 102f6fa8cd7fc0da3628064d427643a6f8505ebc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:41 +0000
Subject: [PATCH 04/86] fix: alignOnGrid cuts events carrying a repeatible tag

---
 gsapi/gspattern.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gsapi/gspattern.py b/gsapi/gspattern.py
index 9771f0f..c35d3cd 100644
--- a/gsapi/gspattern.py
+++ b/gsapi/gspattern.py
@@ -344,7 +344,7 @@ class Pattern(object):
         """
         newEvents = []
         for e in self.events:
-            if e.isTag(repeatibleTags):
+            if any(e.isTag(t) for t in repeatibleTags):
                 evToAdd = e.cutInSteps(stepSize)
             else:
                 evToAdd = [e]
-- 
2.43.0


From 8e5b70f58664f0214f85e47e7395d02847120efa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:41 +0000
Subject: [PATCH 05/86] fix: applyLegato stretches the events of the pattern,
 one voice at a time

---
 gsapi/gspattern.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/gsapi/gspattern.py b/gsapi/gspattern.py
index c35d3cd..29597af 100644
--- a/gsapi/gspattern.py
+++ b/gsapi/gspattern.py
@@ -385,11 +385,12 @@ class Pattern(object):
                 myPattern[-1].duration += diff
         if usePitchValues:
             for p in self.getAllPitches():
-                voice = self.getPatternWithPitch(p)
+                voice = self.getPatternWithPitch(p, makeCopy=False)
+                _perVoiceLegato(voice)
+        else:
+            for t in self.getAllTags():
+                voice = self.getPatternWithTags(tagToLookFor=t, exactSearch=True, makeCopy=False)
                 _perVoiceLegato(voice)
-        for t in self.getAllTags():
-            voice = self.getPatternWithTags(tagToLookFor=t, exactSearch=False, makeCopy=False)
-            _perVoiceLegato(voice)
 
     def copy(self):
         """
-- 
2.43.0


From 42d36b16a2eddf05ea2d882cf732fd21a9a66934 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:41 +0000
Subject: [PATCH 06/86] fix: fillWithSilences perTag keeps one copy of each
 event

---
 gsapi/gspattern.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gsapi/gspattern.py b/gsapi/gspattern.py
index 29597af..ca2c4eb 100644
--- a/gsapi/gspattern.py
+++ b/gsapi/gspattern.py
@@ -489,7 +489,7 @@ class Pattern(object):
             for t in self.getAllTags():
                 allEvents += _fillListWithSilence(
                     self.getPatternWithTags(tagToLookFor=t,
-                                            exactSearch=False,
+                                            exactSearch=True,
                                             makeCopy=False),
                     silenceTag, silencePitch)
             self.events = allEvents
-- 
2.43.0


From fd18aa6a9028870ee5d658a95b0f92db10a377a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:41 +0000
Subject: [PATCH 07/86] fix: copyWithoutEvents copies every field but events

---
 gsapi/gspattern.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/gsapi/gspattern.py b/gsapi/gspattern.py
index ca2c4eb..b1e67dd 100644
--- a/gsapi/gspattern.py
+++ b/gsapi/gspattern.py
@@ -413,6 +413,9 @@ class Pattern(object):
         p.duration = self.duration
         p.bpm = self.bpm
         p.timeSignature = self.timeSignature
+        p.key = self.key
+        p.startTime = self.startTime
+        p.resolution = self.resolution
         p.originFilePath = self.originFilePath
         p.name = self.name
         return p
-- 
2.43.0


From e3bb6a771a723a0099a108a9c9c63a2ccb2b3fe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:41 +0000
Subject: [PATCH 08/86] fix: fillWithPreviousEvent looks up the next onset in
 time order

---
 gsapi/gspattern.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/gsapi/gspattern.py b/gsapi/gspattern.py
index b1e67dd..8fb576f 100644
--- a/gsapi/gspattern.py
+++ b/gsapi/gspattern.py
@@ -430,6 +430,7 @@ class Pattern(object):
         for e in self.events:
             if e.startTime not in onsets:
                 onsets.append(e.startTime)
+        onsets.sort()
         onsets.append(self.duration)
 
         for e in self.events:
-- 
2.43.0


From 490a8a246f931401d6faae741bc8099b7e6fc70f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:41 +0000
Subject: [PATCH 09/86] fix: removeEvent deletes the matching events only

---
 gsapi/gspattern.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gsapi/gspattern.py b/gsapi/gspattern.py
index 8fb576f..6e49b4d 100644
--- a/gsapi/gspattern.py
+++ b/gsapi/gspattern.py
@@ -932,7 +932,7 @@ class Pattern(object):
                 idxToRemove += [idx]
             idx += 1
 
-        for i in idxToRemove:
+        for i in reversed(idxToRemove):
             del self.events[i]
 
     def removeOverlapped(self, usePitchValues=False):
-- 
2.43.0


From 1643098aee79b78a97d757f28d2b5193cfe2c9ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:41 +0000
Subject: [PATCH 10/86] fix: removeByTags visits every event while removing

---
 gsapi/gspattern.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gsapi/gspattern.py b/gsapi/gspattern.py
index 6e49b4d..b01495a 100644
--- a/gsapi/gspattern.py
+++ b/gsapi/gspattern.py
@@ -916,7 +916,7 @@ class Pattern(object):
         Args:
             tags: list of tag(s)
         """
-        for e in self.events:
+        for e in list(self.events):
             if e.hasOneOfTags(tuple(tags)):
                 self.removeEvent(e)
 
-- 
2.43.0


From a7ddfbd4456b13ef0355b7e36188bce5ae55f7b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:41 +0000
Subject: [PATCH 11/86] fix: removeOverlapped drops the first of two events
 starting together

---
 gsapi/gspattern.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/gsapi/gspattern.py b/gsapi/gspattern.py
index b01495a..dad4c98 100644
--- a/gsapi/gspattern.py
+++ b/gsapi/gspattern.py
@@ -967,6 +967,7 @@ class Pattern(object):
                             overLappedEv += [ee]
                         else:
                             gspatternLog.info("strict overlapping of start times %s with %s" % (e, ee))
+                            break
 
                 if ee.startTime > (e.startTime + e.duration):
                     break
-- 
2.43.0


From a08c6bbfcc07dcea54d8bf447b02d1ca38a703df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:41 +0000
Subject: [PATCH 12/86] fix: splitInEqualLengthPatterns of an unnamed pattern

---
 gsapi/gspattern.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gsapi/gspattern.py b/gsapi/gspattern.py
index dad4c98..7d8521d 100644
--- a/gsapi/gspattern.py
+++ b/gsapi/gspattern.py
@@ -1082,7 +1082,7 @@ class Pattern(object):
                 patterns[numPattern].startTime = p * desiredLength
                 patterns[numPattern].duration = desiredLength
                 patterns[
-                    numPattern].name = patternToSlice.name + "_" + numPattern
+                    numPattern].name = (patternToSlice.name or "") + "_" + numPattern
             newEv = e if not makeCopy else e.copy()
 
             if newEv.startTime + newEv.duration > (p + 1) * desiredLength:
-- 
2.43.0


From 413f422c3d8990dcbac1c9b139e137030cbad508 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:41 +0000
Subject: [PATCH 13/86] fix: splitInEqualLengthPatterns puts the rest of a cut
 event in the next part

---
 gsapi/gspattern.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/gsapi/gspattern.py b/gsapi/gspattern.py
index 7d8521d..bb43a26 100644
--- a/gsapi/gspattern.py
+++ b/gsapi/gspattern.py
@@ -1074,8 +1074,9 @@ class Pattern(object):
             a list of patterns of length desiredLength
         """
 
-        def _handleEvent(e, patterns, makeCopy):
-            p = int(math.floor(e.startTime * 1.0 / desiredLength))
+        def _handleEvent(e, patterns, makeCopy, p=None):
+            if p is None:
+                p = int(math.floor(e.startTime * 1.0 / desiredLength))
             numPattern = str(p)
             if numPattern not in patterns:
                 patterns[numPattern] = patternToSlice.copyWithoutEvents()
@@ -1090,7 +1091,7 @@ class Pattern(object):
                 newOnset = (p + 1) * desiredLength
                 remainingEvent.duration = remainingEvent.endTime() - newOnset
                 remainingEvent.startTime = newOnset
-                _handleEvent(remainingEvent, patterns, makeCopy)
+                _handleEvent(remainingEvent, patterns, makeCopy, p + 1)
                 newEv.duration = (p + 1) * desiredLength - e.startTime
 
             newEv.startTime -= p * desiredLength
-- 
2.43.0


From 6d6b487e870883b47e216b12c3a1159ee3edd749 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:41 +0000
Subject: [PATCH 14/86] fix: transpose leaves events with a hashable tag

---
 gsapi/gspattern.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gsapi/gspattern.py b/gsapi/gspattern.py
index bb43a26..3b7b9b5 100644
--- a/gsapi/gspattern.py
+++ b/gsapi/gspattern.py
@@ -1183,7 +1183,7 @@ class Pattern(object):
         """
         for e in self.events:
             e.pitch += interval
-            e.tag = [gsutil.pitch2name(e.pitch, gsdefs.defaultPitchNames)]
+            e.tag = gsutil.pitch2name(e.pitch, gsdefs.defaultPitchNames)
 
 
 def patternToList(myPattern):
-- 
2.43.0


From eda08b691e503366e405195262d3aca7db5ddd6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:38 +0000
Subject: [PATCH 15/86] fix: tag searches look inside tuples only

---
 gsapi/gspattern.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gsapi/gspattern.py b/gsapi/gspattern.py
index 3b7b9b5..bb8e192 100644
--- a/gsapi/gspattern.py
+++ b/gsapi/gspattern.py
@@ -95,7 +95,7 @@ class Event(object):
         """
         # if type(self.tag)!=type(event.tag):
         #     return False
-        return self.hasOneOfTags(event.tag)
+        return self.hasOneOfTags(event.tag if isinstance(event.tag, tuple) else (event.tag,))
 
     def hasOneOfTags(self, tags):
         """
@@ -111,7 +111,7 @@ class Event(object):
             bool: True if at least one tag is equal.
         """
         for t in tags:
-            if (t == self.tag) or (t in self.tag):
+            if (t == self.tag) or (isinstance(self.tag, tuple) and t in self.tag):
                 return True
         return False
 
-- 
2.43.0


From b2bd21f16e515018a3b237f88a50e8e79b5a152c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:38 +0000
Subject: [PATCH 16/86] fix: tag filters accept every kind of tag and look
 inside tuples only

---
 gsapi/gspattern.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/gsapi/gspattern.py b/gsapi/gspattern.py
index bb8e192..4718620 100644
--- a/gsapi/gspattern.py
+++ b/gsapi/gspattern.py
@@ -776,8 +776,7 @@ class Pattern(object):
             if exactSearch:
                 gspatternLog.error(
                     "cannot search exactly with a list of elements")
-            boolFunction = lambda inTags: len(
-                inTags) > 0 and inTags in tagToLookFor
+            boolFunction = lambda inTags: inTags in tagToLookFor
         elif callable(tagToLookFor):
             boolFunction = tagToLookFor
         else:
@@ -786,7 +785,7 @@ class Pattern(object):
                 boolFunction = lambda inTags: inTags == tagToLookFor
             else:
                 boolFunction = lambda inTags: (inTags == tagToLookFor) or (
-                len(inTags) > 0 and tagToLookFor in inTags)
+                isinstance(inTags, tuple) and tagToLookFor in inTags)
 
         res = self.copyWithoutEvents()
         for e in self.events:
@@ -838,8 +837,7 @@ class Pattern(object):
             if exactSearch:
                 gspatternLog.error(
                     "cannot search exactly with a list of elements")
-            boolFunction = lambda inTags: len(
-                inTags) > 0 and inTags in tagToLookFor
+            boolFunction = lambda inTags: inTags in tagToLookFor
         elif callable(tagToLookFor):
             boolFunction = tagToLookFor
         else:
@@ -848,7 +846,7 @@ class Pattern(object):
                 boolFunction = lambda inTags: inTags == tagToLookFor
             else:
                 boolFunction = lambda inTags: (inTags == tagToLookFor) or (
-                len(inTags) > 0 and tagToLookFor in inTags)
+                isinstance(inTags, tuple) and tagToLookFor in inTags)
 
         res = self.copyWithoutEvents()
         for e in self.events:
-- 
2.43.0


From c1460464b1a6ca93703d7bb808f974643ca5de9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:38 +0000
Subject: [PATCH 17/86] fix: JSON tag indexing writes what it reads

---
 gsapi/gspattern.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/gsapi/gspattern.py b/gsapi/gspattern.py
index 4718620..547104c 100644
--- a/gsapi/gspattern.py
+++ b/gsapi/gspattern.py
@@ -537,6 +537,8 @@ class Pattern(object):
                                       velocity=e['velocity'],
                                       tag=tuple(
                                               [tags[f] for f in e['tagsIdx']])
+                                      if isinstance(e['tagsIdx'], list)
+                                      else tags[e['tagsIdx']]
                                       )]
         else:
             for e in json['eventList']:
@@ -1007,18 +1009,15 @@ class Pattern(object):
                              self.viewpoints.items()}
         if useTagIndexing:
             allTags = self.getAllTags()
+            allTags = list(allTags)
             res['eventTags'] = allTags
 
-            def findIdxforTags(tags, allTags):
-                return [allTags.index(x) for x in tags]
-
             for e in self.events:
                 res['eventList'] += [{'on':       e.startTime,
                                       'duration': e.duration,
                                       'pitch':    e.pitch,
                                       'velocity': e.velocity,
-                                      'tagIdx':   findIdxforTags(e.tag,
-                                                                 allTags)
+                                      'tagsIdx':  allTags.index(e.tag)
                                       }]
         else:
             for e in self.events:
-- 
2.43.0


From 0cf6215270791f0922144a1f80bd0430fd75784a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:38 +0000
Subject: [PATCH 18/86] fix: JSON keeps the key and start time of a pattern

---
 gsapi/gspattern.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/gsapi/gspattern.py b/gsapi/gspattern.py
index 547104c..c7450d9 100644
--- a/gsapi/gspattern.py
+++ b/gsapi/gspattern.py
@@ -512,6 +512,8 @@ class Pattern(object):
         self.duration = json['timeInfo']['duration']
         self.bpm = json['timeInfo']['bpm']
         self.timeSignature = tuple(json['timeInfo']['timeSignature'])
+        self.key = json.get('key')
+        self.startTime = json['timeInfo'].get('startTime', 0)
         if 'originPattern' in json:
             def findOriginPatternInParent(name):
                 if not name:
@@ -1002,8 +1004,10 @@ class Pattern(object):
         self.durationToLastEvent()
         res['name'] = self.name
         if self.originPattern: res['originPattern'] = self.originPattern.name
+        res['key'] = self.key
         res['timeInfo'] = {'duration':      self.duration, 'bpm': self.bpm,
-                           'timeSignature': self.timeSignature}
+                           'timeSignature': self.timeSignature,
+                           'startTime':     self.startTime}
         res['eventList'] = []
         res['viewpoints'] = {k: v.toJSONDict(useTagIndexing) for k, v in
                              self.viewpoints.items()}
-- 
2.43.0


From 852e8a81fc85296167a723ddd7141fb956541af4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:38 +0000
Subject: [PATCH 19/86] fix: JSON keeps tuples nested in tuples

---
 gsapi/gsio.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gsapi/gsio.py b/gsapi/gsio.py
index c59698e..308e6f9 100644
--- a/gsapi/gsio.py
+++ b/gsapi/gsio.py
@@ -428,7 +428,7 @@ def toJSONFile(myPattern, folderPath, useTagIndexing=True, nameSuffix=None, cons
 
         """
         def checkTuple(self, item):
-            if isinstance(item, tuple): return {'__tuple__': True, 'items': item}
+            if isinstance(item, tuple): return {'__tuple__': True, 'items': [self.checkTuple(e) for e in item]}
             if isinstance(item, list): return [self.checkTuple(e) for e in item]
             if isinstance(item, dict):
                 return {k: self.checkTuple(e) for k, e in item.items()}
-- 
2.43.0


From 9af5257afc64b1cc8b4e57acbda0a875993931ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:48 +0000
Subject: [PATCH 20/86] fix: JSON keeps the origin of viewpoints of an
 eventless pattern, loads one saved alone

---
 gsapi/gspattern.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/gsapi/gspattern.py b/gsapi/gspattern.py
index c7450d9..6a08cb7 100644
--- a/gsapi/gspattern.py
+++ b/gsapi/gspattern.py
@@ -519,12 +519,13 @@ class Pattern(object):
                 if not name:
                     return None
                 checkedPattern = parentPattern
-                while checkedPattern:
+                while checkedPattern is not None:
                     if checkedPattern.name == name:
                         return checkedPattern
                     checkedPattern = checkedPattern.originPattern
 
-                assert False, "no origin pattern found"
+                gspatternLog.warning("no origin pattern found")
+                return None
 
             self.originPattern = findOriginPatternInParent(
                     json['originPattern'])
@@ -1003,7 +1004,7 @@ class Pattern(object):
         res = {}
         self.durationToLastEvent()
         res['name'] = self.name
-        if self.originPattern: res['originPattern'] = self.originPattern.name
+        if self.originPattern is not None: res['originPattern'] = self.originPattern.name
         res['key'] = self.key
         res['timeInfo'] = {'duration':      self.duration, 'bpm': self.bpm,
                            'timeSignature': self.timeSignature,
-- 
2.43.0


From 7ed6866231f664b0ec3ec6b4e08fdc06215bae57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:50 +0000
Subject: [PATCH 21/86] fix: the best chord is found when every score is
 negative

---
 gsapi/gsdescriptors.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/gsapi/gsdescriptors.py b/gsapi/gsdescriptors.py
index 02d28fc..0e7999d 100644
--- a/gsapi/gsdescriptors.py
+++ b/gsapi/gsdescriptors.py
@@ -18,7 +18,7 @@ def intervalListToProfile(intervalList, length=12):
 
 
 def findBestScoreForProfiles(chromas, pitchProfileDict, penalityWeight, allowDuplicates=False):
-    maxScore = 0
+    maxScore = None
     if allowDuplicates:
         bestProfile = []
         bestRoot = []
@@ -29,9 +29,9 @@ def findBestScoreForProfiles(chromas, pitchProfileDict, penalityWeight, allowDup
         conv = convolveWithPitchProfile(chromas, value, penalityWeight)
         score = findMaxAndIdx(conv)
         nonZero = getNumNonZero(value)  # todo: what is this for?
-        if score[0] >= maxScore:
+        if maxScore is None or score[0] >= maxScore:
             if allowDuplicates:
-                if score[0] > maxScore:
+                if maxScore is None or score[0] > maxScore:
                     bestProfile = [key]
                     bestRoot = [score[1]]
                 else:
@@ -76,11 +76,11 @@ def convolveWithPitchProfile(chromas, pitchProfile, penalityWeight):
 
 
 def findMaxAndIdx(convolution):
-    M = 0
+    M = None
     Mi = -1
     i = 0
     for chroma in convolution:
-        if chroma > M:
+        if M is None or chroma > M:
             M = chroma
             Mi = i
         i += 1
-- 
2.43.0


From f7fda30f253af8deb99c700ded0be701cf4d3419 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:50 +0000
Subject: [PATCH 22/86] fix: eleventh of min(add11), seventh of maj#11

---
 gsapi/gsdefs.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gsapi/gsdefs.py b/gsapi/gsdefs.py
index 3c626bd..948cb05 100644
--- a/gsapi/gsdefs.py
+++ b/gsapi/gsdefs.py
@@ -47,7 +47,7 @@ chordIntervals = {"0":           [],
                   "maj11":       [12, 11, 12, 11, 11],
                   "min11":       [11, 12, 11, 12, 11],
                   "#11":         [12, 11, 11, 12, 12],
-                  "maj#11":      [12, 11, 11, 12, 12],
+                  "maj#11":      [12, 11, 12, 11, 12],
                   "min#11":      [11, 12, 11, 12, 12]}
 
 chordTypes = {"0":          [0],
@@ -73,7 +73,7 @@ chordTypes = {"0":          [0],
               "min(add9)":  [0, 3, 7, 14],
               "7sus4":      [0, 5, 7, 10],
               "add11":      [0, 4, 7, 17],
-              "min(add11)": [0, 3, 7, 16],
+              "min(add11)": [0, 3, 7, 17],
               "9":          [0, 4, 7, 10, 14],
               "b9":         [0, 4, 7, 10, 13],
               "maj9":       [0, 4, 7, 11, 14],
-- 
2.43.0


From 81f7b952a941da484bfc7be4bd687427bc72ffe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:00 +0000
Subject: [PATCH 23/86] fix: MIDI files are complete on disk after writing, and
 closed after reading

---
 gsapi/midiio.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/gsapi/midiio.py b/gsapi/midiio.py
index db00dad..61aa517 100644
--- a/gsapi/midiio.py
+++ b/gsapi/midiio.py
@@ -19,13 +19,15 @@ if sys.version_info < (3,):
 
     def write_midifile(midifile, pattern):
         if type(midifile) in (str, unicode):
-            midifile = open(midifile, 'wb')
+            with open(midifile, 'wb') as f:
+                return FileWriter().write(f, pattern)
         writer = FileWriter()
         return writer.write(midifile, pattern)
 
     def read_midifile(midifile):
         if type(midifile) in (str, unicode):
-            midifile = open(midifile, 'rb')
+            with open(midifile, 'rb') as f:
+                return FileReader().read(f)
         reader = FileReader()
         return reader.read(midifile)
 
@@ -37,13 +39,15 @@ else:
 
     def write_midifile(midifile, pattern):
         if type(midifile) is str:
-            midifile = open(midifile, 'wb')
+            with open(midifile, 'wb') as f:
+                return FileWriter().write(f, pattern)
         writer = FileWriter()
         return writer.write(midifile, pattern)
 
     def read_midifile(midifile):
         if type(midifile) is str:
-            midifile = open(midifile, 'rb')
+            with open(midifile, 'rb') as f:
+                return FileReader().read(f)
         reader = FileReader()
         return reader.read(midifile)
 
-- 
2.43.0


From a66e0d7eff360815880b1ad15536d00293f70c99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:00 +0000
Subject: [PATCH 24/86] fix: long MIDI headers are skipped whole

---
 gsapi/midiio.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/gsapi/midiio.py b/gsapi/midiio.py
index 61aa517..bc17fa4 100644
--- a/gsapi/midiio.py
+++ b/gsapi/midiio.py
@@ -76,8 +76,9 @@ class FileReader(object):
         resolution = data[3]
         # XXX: the assumption is that any remaining bytes
         # in the header are padding
-        if hdrsz > DEFAULT_MIDI_HEADER_SIZE:
-            midifile.read(hdrsz - DEFAULT_MIDI_HEADER_SIZE)
+        # (the size field does not count itself and the magic)
+        if hdrsz > DEFAULT_MIDI_HEADER_SIZE - 8:
+            midifile.read(hdrsz - (DEFAULT_MIDI_HEADER_SIZE - 8))
         return Pattern(tracks=tracks, resolution=resolution, frmt=frmt)
 
     def parse_track_header(self, midifile):
-- 
2.43.0


From 7fce69183de01afcd8e81cdf0ca6a21105103ff6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:00 +0000
Subject: [PATCH 25/86] fix: warning on unknown meta events

---
 gsapi/midiio.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gsapi/midiio.py b/gsapi/midiio.py
index bc17fa4..4d86bd0 100644
--- a/gsapi/midiio.py
+++ b/gsapi/midiio.py
@@ -110,7 +110,7 @@ class FileReader(object):
         if MetaEvent.is_event(stsmsg):
             cmd = ord(trackdata.next())
             if cmd not in EventRegistry.MetaEvents:
-                midiioLog.warning("Unknown Meta MIDI Event: " + repr(cmd), Warning)
+                midiioLog.warning("Unknown Meta MIDI Event: " + repr(cmd))
                 cls = UnknownMetaEvent
             else:
                 cls = EventRegistry.MetaEvents[cmd]
-- 
2.43.0


From 67ab46dc38fb3fbbbb141f26710af70b4af77203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:00 +0000
Subject: [PATCH 26/86] fix: meta and sysex events end running status in
 written files

---
 gsapi/midiio.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gsapi/midiio.py b/gsapi/midiio.py
index 4d86bd0..509e089 100644
--- a/gsapi/midiio.py
+++ b/gsapi/midiio.py
@@ -177,11 +177,13 @@ class FileWriter(object):
         ret += write_varlen(event.tick)
         # is the event a MetaEvent?
         if isinstance(event, MetaEvent):
+            self.RunningStatus = None
             ret += chr(event.statusmsg) + chr(event.metacommand)
             ret += write_varlen(len(event.data))
             ret += str.join('', map(chr, event.data))
         # is this event a Sysex Event?
         elif isinstance(event, SysexEvent):
+            self.RunningStatus = None
             ret += chr(0xF0)
             ret += str.join('', map(chr, event.data))
             ret += chr(0xF7)
-- 
2.43.0


From 8552380b20350e33d344056d386364c30ee9a995 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:00 +0000
Subject: [PATCH 27/86] fix: channel aftertouch has one data byte

---
 gsapi/midiio.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gsapi/midiio.py b/gsapi/midiio.py
index 509e089..8df5cf8 100644
--- a/gsapi/midiio.py
+++ b/gsapi/midiio.py
@@ -501,10 +501,10 @@ class ChannelAfterTouchEvent(Event):
     name = 'Channel After Touch'
 
     def set_value(self, val):
-        self.data[1] = val
+        self.data[0] = val
 
     def get_value(self):
-        return self.data[1]
+        return self.data[0]
 
     value = property(get_value, set_value)
 
-- 
2.43.0


From 1aa8ab9e3348c2b32e307334fa9a0b05e39fa8b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:00 +0000
Subject: [PATCH 28/86] fix: text given to a text meta event is written

---
 gsapi/midiio.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gsapi/midiio.py b/gsapi/midiio.py
index 8df5cf8..ad6de5e 100644
--- a/gsapi/midiio.py
+++ b/gsapi/midiio.py
@@ -548,6 +548,8 @@ class MetaEventWithText(MetaEvent):
         super(MetaEventWithText, self).__init__(**kw)
         if 'text' not in kw:
             self.text = ''.join(chr(datum) for datum in self.data)
+        elif 'data' not in kw:
+            self.data = [ord(char) for char in self.text]
 
     def __repr__(self):
         return self.__baserepr__(['text'])
-- 
2.43.0


From 00cafd264de972aa75ab558c9b5605b9237cc9e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:00 +0000
Subject: [PATCH 29/86] fix: slices of patterns and tracks keep whether ticks
 are relative

---
 gsapi/midiio.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gsapi/midiio.py b/gsapi/midiio.py
index ad6de5e..0b8e498 100644
--- a/gsapi/midiio.py
+++ b/gsapi/midiio.py
@@ -230,6 +230,7 @@ class Pattern(list):
         if isinstance(item, slice):
             indices = item.indices(len(self))
             return Pattern(resolution=self.resolution, frmt=self.frmt,
+                           tick_relative=self.tick_relative,
                            tracks=(super(Pattern, self).__getitem__(i) for i in
                                    xrange(*indices)))
         else:
@@ -266,7 +267,7 @@ class Track(list):
         if isinstance(item, slice):
             indices = item.indices(len(self))
             return Track((super(Track, self).__getitem__(i) for i in
-                          xrange(*indices)))
+                          xrange(*indices)), tick_relative=self.tick_relative)
         else:
             return super(Track, self).__getitem__(item)
 
-- 
2.43.0


From 31155fd28114f6e4c54eef98b5f5a6c07749c3b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:00 +0000
Subject: [PATCH 30/86] fix: system exclusive events carry their length in the
 file

---
 gsapi/midiio.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/gsapi/midiio.py b/gsapi/midiio.py
index 0b8e498..59dfc60 100644
--- a/gsapi/midiio.py
+++ b/gsapi/midiio.py
@@ -119,12 +119,10 @@ class FileReader(object):
             return cls(tick=tick, data=data, metacommand=cmd)
         # is this event a Sysex Event?
         elif SysexEvent.is_event(stsmsg):
-            data = []
-            while True:
-                datum = ord(trackdata.next())
-                if datum == 0xF7:
-                    break
-                data.append(datum)
+            datalen = read_varlen(trackdata)
+            data = [ord(trackdata.next()) for x in range(datalen)]
+            if data and data[-1] == 0xF7:
+                data.pop()
             return SysexEvent(tick=tick, data=data)
         # not a Meta MIDI event or a Sysex event, must be a general message
         else:
@@ -185,6 +183,7 @@ class FileWriter(object):
         elif isinstance(event, SysexEvent):
             self.RunningStatus = None
             ret += chr(0xF0)
+            ret += write_varlen(len(event.data) + 1)
             ret += str.join('', map(chr, event.data))
             ret += chr(0xF7)
         # not a Meta MIDI event or a Sysex event, must be a general message
-- 
2.43.0


From ee06468a2950ef919d7723176658893af3779b5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:00 +0000
Subject: [PATCH 31/86] fix: tempo is rounded, not truncated, to the
 microsecond

---
 gsapi/midiio.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gsapi/midiio.py b/gsapi/midiio.py
index 59dfc60..24b5759 100644
--- a/gsapi/midiio.py
+++ b/gsapi/midiio.py
@@ -646,7 +646,7 @@ class SetTempoEvent(MetaEvent):
     length = 3
 
     def set_bpm(self, bpm):
-        self.mpqn = int(float(6e7) / bpm)
+        self.mpqn = int(round(float(6e7) / bpm))
 
     def get_bpm(self):
         return float(6e7) / self.mpqn
-- 
2.43.0


From bac2c8c63fe1745ad96872f285a9c40d6a1b40c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:00 +0000
Subject: [PATCH 32/86] fix: the note map given by the caller is not modified

---
 gsapi/gsio.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gsapi/gsio.py b/gsapi/gsio.py
index 308e6f9..6b5f9a1 100644
--- a/gsapi/gsio.py
+++ b/gsapi/gsio.py
@@ -89,6 +89,8 @@ def __tagFromMidiNote(_noteToTag):
         else:
             if not isinstance(noteToTag[n], list):
                 noteToTag[n] = [noteToTag[n]]
+            else:
+                noteToTag[n] = list(noteToTag[n])
             for i in range(len(noteToTag[n])):
                 if isinstance(noteToTag[n][i], int):
                     noteToTag[n][i] = (noteToTag[n][i], "*")
-- 
2.43.0


From bfbe8872ef4a5d5ac1e0563d83b4a475a03aea51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:00 +0000
Subject: [PATCH 33/86] fix: collections of MIDI files import with the default
 map and track selection

---
 gsapi/gsio.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gsapi/gsio.py b/gsapi/gsio.py
index 6b5f9a1..cd32f51 100644
--- a/gsapi/gsio.py
+++ b/gsapi/gsio.py
@@ -267,7 +267,7 @@ def fromMidiFile(midiFile, noteToTagMap="pitchName", tracksToGet=None, tagFromTr
                             checkForOverlapped=checkForOverlapped)
 
 
-def fromMidiCollection(midiGlobPath, noteToTagMap=gsdefs.defaultPitchNames, tracksToGet=None,
+def fromMidiCollection(midiGlobPath, noteToTagMap="pitchName", tracksToGet=None,
                        tagFromTrackName=False, filterOutNotMapped=True, desiredLength=0):
     """
     Loads a collection of MIDI Files
@@ -298,7 +298,7 @@ def fromMidiCollection(midiGlobPath, noteToTagMap=gsdefs.defaultPitchNames, trac
     for f in glob.glob(midiGlobPath):
         name = os.path.splitext(os.path.basename(f))[0]
         gsioLog.info("getting " + name)
-        p = fromMidiFile(f, _noteToTagMap, tagFromTrackName=tagFromTrackName, filterOutNotMapped=filterOutNotMapped)
+        p = fromMidiFile(f, _noteToTagMap, tracksToGet=tracksToGet, tagFromTrackName=tagFromTrackName, filterOutNotMapped=filterOutNotMapped)
         if desiredLength > 0:
             res += p.splitInEqualLengthPatterns(desiredLength, makeCopy=False)
         else:
-- 
2.43.0


From 6d8a66cc66d1e2494dd32c266648008c3ec7e9c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:00 +0000
Subject: [PATCH 34/86] fix: tagging notes from the name of their own track

---
 gsapi/gsio.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gsapi/gsio.py b/gsapi/gsio.py
index cd32f51..855e945 100644
--- a/gsapi/gsio.py
+++ b/gsapi/gsio.py
@@ -115,7 +115,7 @@ def __tagFromTrackName(name, noteMapping):
     res = tuple()
     for l in noteMapping:
         if l in name:
-            res += [l]
+            res += (l,)
     return res
 
 
@@ -146,6 +146,7 @@ def __fromMidiFormat(midiPath, noteToTagMap, tracksToGet=None, tagFromTrackName=
     trackDuration = None
     for tracks in globalMidi:
         shouldSkipTrack = False
+        noteTag = ()
         for e in tracks:
             if shouldSkipTrack:
                 continue
-- 
2.43.0


From 0ccbf79b6d0d9dbcac55d94f2efa59ff05c84eb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:00 +0000
Subject: [PATCH 35/86] fix: track selection applies to unnamed tracks and
 whole tracks

---
 gsapi/gsio.py | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/gsapi/gsio.py b/gsapi/gsio.py
index 855e945..47ef878 100644
--- a/gsapi/gsio.py
+++ b/gsapi/gsio.py
@@ -145,7 +145,11 @@ def __fromMidiFormat(midiPath, noteToTagMap, tracksToGet=None, tagFromTrackName=
     trackIdx = 0
     trackDuration = None
     for tracks in globalMidi:
-        shouldSkipTrack = False
+        trackNames = [e.text for e in tracks if isinstance(e, midiio.TrackNameEvent)]
+        shouldSkipTrack = bool(tracksToGet) and trackIdx not in tracksToGet and not any(
+            t in tracksToGet for t in trackNames)
+        if shouldSkipTrack:
+            gsioLog.info("skipping track: %i %s" % (trackIdx, trackNames))
         noteTag = ()
         for e in tracks:
             if shouldSkipTrack:
@@ -154,14 +158,7 @@ def __fromMidiFormat(midiPath, noteToTagMap, tracksToGet=None, tagFromTrackName=
                 noteTag = ()
             if midiio.MetaEvent.is_event(e.statusmsg):
                 if e.metacommand == midiio.TrackNameEvent.metacommand:
-                    if tracksToGet and not (
-                        (e.text in tracksToGet) or (trackIdx in tracksToGet)):
-                        gsioLog.info(
-                            "skipping track: %i %s" % (trackIdx, e.text))
-                        shouldSkipTrack = True
-                        continue
-                    else:
-                        gsioLog.info(myPattern.name + ": getting track: %i %s" % (trackIdx, e.text))
+                    gsioLog.info(myPattern.name + ": getting track: %i %s" % (trackIdx, e.text))
 
                     if tagFromTrackName:
                         noteTag = __tagFromTrackName(e.text, noteToTagMap)
-- 
2.43.0


From 7e864047a6091b0233bd5ff243cdc059564a8ec0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:00 +0000
Subject: [PATCH 36/86] fix: a note off without note on is skipped, even as the
 first event

---
 gsapi/gsio.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gsapi/gsio.py b/gsapi/gsio.py
index 47ef878..3ada625 100644
--- a/gsapi/gsio.py
+++ b/gsapi/gsio.py
@@ -208,8 +208,8 @@ def __fromMidiFormat(midiPath, noteToTagMap, tracksToGet=None, tagFromTrackName=
                             gsioLog.info("set duration %f at start %f " % (i.duration, i.startTime))
                             break
                     if not foundNoteOn:
-                        gsioLog.warning(myPattern.name + ": not found note on\n %s\n%s\n%s , %s " %
-                                        (e, myPattern.events[-1], noteTag, curBeat))
+                        gsioLog.warning(myPattern.name + ": not found note on\n %s\n%s , %s " %
+                                        (e, noteTag, curBeat))
         trackIdx += 1
     elementSize = 4.0 / myPattern.timeSignature[1]
     barSize = myPattern.timeSignature[0] * elementSize
-- 
2.43.0


From 029bd601962b964646f55091009fca0df47cc160 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:00 +0000
Subject: [PATCH 37/86] fix: note offs end notes of their own channel

---
 gsapi/gsio.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/gsapi/gsio.py b/gsapi/gsio.py
index 3ada625..813f934 100644
--- a/gsapi/gsio.py
+++ b/gsapi/gsio.py
@@ -151,6 +151,7 @@ def __fromMidiFormat(midiPath, noteToTagMap, tracksToGet=None, tagFromTrackName=
         if shouldSkipTrack:
             gsioLog.info("skipping track: %i %s" % (trackIdx, trackNames))
         noteTag = ()
+        noteOns = []  # (channel, event)
         for e in tracks:
             if shouldSkipTrack:
                 continue
@@ -194,13 +195,14 @@ def __fromMidiFormat(midiPath, noteToTagMap, tracksToGet=None, tagFromTrackName=
                     if extremeLog: gsioLog.debug("on %d %f" % (pitch, curBeat))
                     myPattern.events += [gspattern.Event(startTime=curBeat, duration=-1, pitch=pitch,
                                                          velocity=velocity, tag=noteTag)]
+                    noteOns += [(e.channel, myPattern.events[-1])]
                 if isNoteOff:
                     if extremeLog:
                         gsioLog.debug("off %d %f" % (pitch, curBeat))
                     foundNoteOn = False
                     isTrueNoteOff = midiio.NoteOffEvent.is_event(e.statusmsg)
-                    for i in reversed(myPattern.events):
-                        if (i.pitch == pitch) and (i.tag == noteTag) and ((isTrueNoteOff and (curBeat >= i.startTime))
+                    for channel, i in reversed(noteOns):
+                        if (channel == e.channel) and (i.pitch == pitch) and (i.tag == noteTag) and ((isTrueNoteOff and (curBeat >= i.startTime))
                                                                     or curBeat > i.startTime) and i.duration <= 0.0001:
                             foundNoteOn = True
                             i.duration = max(0.0001, curBeat - i.startTime)
-- 
2.43.0


From 1d4f43f92d5ec741bce849566e1ccb54b8caa138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:00 +0000
Subject: [PATCH 38/86] fix: exported notes use the MIDI map given as a dict

---
 gsapi/gsio.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gsapi/gsio.py b/gsapi/gsio.py
index 813f934..ac3209c 100644
--- a/gsapi/gsio.py
+++ b/gsapi/gsio.py
@@ -349,8 +349,8 @@ def toMidiFile(myPattern, midiMap=gsdefs.defaultPitchNames, folderPath="./output
         channel = 1
         if isinstance(midiMap, tuple):
             pitch = midiMap[e.tag[0]]
-        elif isinstance(midiMap, collections.Hashable):
-            pitch = midiMap[e.tag]
+        elif isinstance(midiMap, dict):
+            pitch = midiMap.get(e.tag, e.pitch)
         else:
             pitch = e.pitch
         track.append(midiio.NoteOnEvent(tick=startTick, velocity=e.velocity, pitch=pitch, channel=channel))
-- 
2.43.0


From be233c562b821c19b207697a8e86a9b2ebc63fc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:00 +0000
Subject: [PATCH 39/86] fix: exported ticks are rounded to the nearest

---
 gsapi/gsio.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gsapi/gsio.py b/gsapi/gsio.py
index ac3209c..8f94b95 100644
--- a/gsapi/gsio.py
+++ b/gsapi/gsio.py
@@ -343,8 +343,8 @@ def toMidiFile(myPattern, midiMap=gsdefs.defaultPitchNames, folderPath="./output
     pattern.append(track)
     beatToTick = pattern.resolution
     for e in myPattern.events:
-        startTick = int(beatToTick * e.startTime)
-        endTick = int(beatToTick * e.endTime())
+        startTick = int(round(beatToTick * e.startTime))
+        endTick = int(round(beatToTick * e.endTime()))
         # pitch = e.pitch
         channel = 1
         if isinstance(midiMap, tuple):
-- 
2.43.0


From 9542ad5ba598efbfcd9c437b6194c1ee03bb4742 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:00 +0000
Subject: [PATCH 40/86] fix: unordered patterns are exported with each note off
 before the next note on

---
 gsapi/gsio.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gsapi/gsio.py b/gsapi/gsio.py
index 8f94b95..c7b9cdd 100644
--- a/gsapi/gsio.py
+++ b/gsapi/gsio.py
@@ -342,7 +342,7 @@ def toMidiFile(myPattern, midiMap=gsdefs.defaultPitchNames, folderPath="./output
     # Append the track to the pattern
     pattern.append(track)
     beatToTick = pattern.resolution
-    for e in myPattern.events:
+    for e in sorted(myPattern.events, key=lambda x: x.startTime):
         startTick = int(round(beatToTick * e.startTime))
         endTick = int(round(beatToTick * e.endTime()))
         # pitch = e.pitch
-- 
2.43.0


From 4b28b8d23ec98a8fd9591fe92646254179f81858 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:00 +0000
Subject: [PATCH 41/86] fix: the end of an exported track is not before its
 last event

---
 gsapi/gsio.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gsapi/gsio.py b/gsapi/gsio.py
index c7b9cdd..94f86df 100644
--- a/gsapi/gsio.py
+++ b/gsapi/gsio.py
@@ -357,7 +357,8 @@ def toMidiFile(myPattern, midiMap=gsdefs.defaultPitchNames, folderPath="./output
         track.append(midiio.NoteOffEvent(tick=endTick, velocity=e.velocity, pitch=pitch, channel=channel))
 
     # and the "End of Track" Event
-    track.append(midiio.EndOfTrackEvent(tick=int(myPattern.duration * beatToTick)))
+    lastTick = max(e.tick for e in track)
+    track.append(midiio.EndOfTrackEvent(tick=max(lastTick, int(round(myPattern.duration * beatToTick)))))
 
     # make tick relatives
     track.sort(key=lambda e: e.tick)
-- 
2.43.0


From 5cc33504794b87760f11172f61f6dbad69d30ce9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:00 +0000
Subject: [PATCH 42/86] fix: patterns without name can be exported

---
 gsapi/gsio.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gsapi/gsio.py b/gsapi/gsio.py
index 94f86df..1055a5b 100644
--- a/gsapi/gsio.py
+++ b/gsapi/gsio.py
@@ -333,7 +333,7 @@ def toMidiFile(myPattern, midiMap=gsdefs.defaultPitchNames, folderPath="./output
     # Write Metadata
     track.append(midiio.TimeSignatureEvent(numerator=myPattern.timeSignature[0],
                                            denominator=myPattern.timeSignature[1]))
-    track.append(midiio.TrackNameEvent(text=myPattern.name))
+    track.append(midiio.TrackNameEvent(text=myPattern.name or ""))
     track.append(midiio.SetTempoEvent(bpm=myPattern.bpm))
     if myPattern.key:
         keyTuple = __keyToMidiFormat(myPattern.key)
-- 
2.43.0


From 4f72fbe10a622dd5460abd32c0f3ca4c63feac6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:01 +0000
Subject: [PATCH 43/86] fix: minor key signatures name the minor tonic

---
 gsapi/gsdefs.py | 16 ++++++++++++++++
 gsapi/gsio.py   |  8 +++++---
 2 files changed, 21 insertions(+), 3 deletions(-)

diff --git a/gsapi/gsdefs.py b/gsapi/gsdefs.py
index 948cb05..d35165a 100644
--- a/gsapi/gsdefs.py
+++ b/gsapi/gsdefs.py
@@ -173,6 +173,22 @@ midiKey = {-7: 'Cb',
            6: 'F#',
            7: 'C#'}
 
+midiMinorKey = {-7: 'Ab',
+                -6: 'Eb',
+                -5: 'Bb',
+                -4: 'F',
+                -3: 'C',
+                -2: 'G',
+                -1: 'D',
+                0: 'A',
+                1: 'E',
+                2: 'B',
+                3: 'F#',
+                4: 'C#',
+                5: 'G#',
+                6: 'D#',
+                7: 'A#'}
+
 noteMap= {"c-1":   0,
           "c#-1":  1,
           "d-1":   2,
diff --git a/gsapi/gsio.py b/gsapi/gsio.py
index 1055a5b..5cdd46a 100644
--- a/gsapi/gsio.py
+++ b/gsapi/gsio.py
@@ -33,7 +33,8 @@ def __keyToMidiFormat(keyString):
     if 'm' in keyString:
         keyString = keyString[:-1]
         mode = 1
-    tonic = gsdefs.midiKey.keys()[gsdefs.midiKey.values().index(keyString)]
+    keys = gsdefs.midiMinorKey if mode else gsdefs.midiKey
+    tonic = list(keys.keys())[list(keys.values()).index(keyString)]
     return tonic, mode
 
 
@@ -63,9 +64,10 @@ def __metaEventsFromMidiFile(myPattern, midiFile):
                     if foundKey:
                         gsioLog.error(myPattern.name + ": found multiple keys! Not supported.")
                     foundKey = True
-                    keyName = gsdefs.midiKey[e.alternatives]
                     if e.minor == 1:
-                        keyName += "m"
+                        keyName = gsdefs.midiMinorKey[e.alternatives] + "m"
+                    else:
+                        keyName = gsdefs.midiKey[e.alternatives]
                     myPattern.key = keyName
 
                     # if foundTimeSignatureEvent:
-- 
2.43.0


From f38197e1ee3d5ac107c862973a206ec32d326532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:01 +0000
Subject: [PATCH 44/86] fix: escaped data (status F7) in MIDI files is read and
 written

---
 gsapi/midiio.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/gsapi/midiio.py b/gsapi/midiio.py
index 24b5759..7dc8eb8 100644
--- a/gsapi/midiio.py
+++ b/gsapi/midiio.py
@@ -118,9 +118,11 @@ class FileReader(object):
             data = [ord(trackdata.next()) for x in range(datalen)]
             return cls(tick=tick, data=data, metacommand=cmd)
         # is this event a Sysex Event?
-        elif SysexEvent.is_event(stsmsg):
+        elif SysexEvent.is_event(stsmsg) or stsmsg == 0xF7:
             datalen = read_varlen(trackdata)
             data = [ord(trackdata.next()) for x in range(datalen)]
+            if stsmsg == 0xF7:
+                return SysexEvent(tick=tick, data=data, statusmsg=stsmsg)
             if data and data[-1] == 0xF7:
                 data.pop()
             return SysexEvent(tick=tick, data=data)
@@ -182,10 +184,10 @@ class FileWriter(object):
         # is this event a Sysex Event?
         elif isinstance(event, SysexEvent):
             self.RunningStatus = None
-            ret += chr(0xF0)
-            ret += write_varlen(len(event.data) + 1)
-            ret += str.join('', map(chr, event.data))
-            ret += chr(0xF7)
+            ret += chr(event.statusmsg)
+            data = event.data if event.statusmsg == 0xF7 else event.data + [0xF7]
+            ret += write_varlen(len(data))
+            ret += str.join('', map(chr, data))
         # not a Meta MIDI event or a Sysex event, must be a general message
         elif isinstance(event, Event):
             if not self.RunningStatus or \
-- 
2.43.0


From 653dd86ec8143417fa60fd16ba1f20f0cf79378a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:10 +0000
Subject: [PATCH 45/86] fix: a class listing a note twice tags it once

---
 gsapi/gsio.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/gsapi/gsio.py b/gsapi/gsio.py
index 5cdd46a..ad30674 100644
--- a/gsapi/gsio.py
+++ b/gsapi/gsio.py
@@ -108,6 +108,7 @@ def __tagsFromMidiNoteAndChannel(pitch, channel, noteMapping):
         for le in noteMapping[l]:
             if (le[0] in {"*", pitch}) and (le[1] in {"*", channel}):
                 res += (l,)
+                break
     if len(res) == 1:
         return res[0]
     return res
-- 
2.43.0


From 5ef85617e60a782f7c30ea5981cec84d039bbf0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:15 +0000
Subject: [PATCH 46/86] fix: Markov styles create their patterns and events
 again

---
 gsapi/gsstyles.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/gsapi/gsstyles.py b/gsapi/gsstyles.py
index e9b32d2..d359d5e 100644
--- a/gsapi/gsstyles.py
+++ b/gsapi/gsstyles.py
@@ -4,7 +4,7 @@ import copy
 import logging
 import random
 
-from .gspattern import Pattern
+from .gspattern import Event, Pattern
 
 markovLog = logging.getLogger('gsapi.styles.markov_style')
 # todo change this to fit the new reorganisation!
@@ -460,7 +460,7 @@ class PatternMarkov(object):
                     markovLog.warning(
                             "not found combination %s " % (','.join(newPast)))
 
-        pattern = gspattern.Pattern()
+        pattern = Pattern()
         idx = 0
 
         stepSize = 1.0 * self.loopDuration / self.numSteps
@@ -469,7 +469,7 @@ class PatternMarkov(object):
             for tagElem in el:
                 if tagElem != 'silence':
                     pattern.events += [
-                        gspattern.Event(idx * stepSize, stepSize, 100, 127,
+                        Event(idx * stepSize, stepSize, 100, 127,
                                         tag=tagElem)]
 
             idx += 1
-- 
2.43.0


From d5929f41dd3e12abae3eb945e137c3300f4fbea1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:15 +0000
Subject: [PATCH 47/86] fix: Markov sampling draws the state whose share holds
 the random number

---
 gsapi/gsstyles.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/gsapi/gsstyles.py b/gsapi/gsstyles.py
index d359d5e..eb75eb4 100644
--- a/gsapi/gsstyles.py
+++ b/gsapi/gsstyles.py
@@ -420,9 +420,9 @@ class PatternMarkov(object):
                     tSum += x
                     bins += [tSum]
                 r = random.random()
-                for i in range(1, len(bins)):
-                    if bins[i - 1] <= r and bins[i] > r:
-                        chosenIdx = i - 1
+                for i in range(len(bins)):
+                    if bins[i] > r:
+                        chosenIdx = i
                         break
 
             return list(d.keys())[chosenIdx]
-- 
2.43.0


From 896b20f7823fff3ab29dfe3cfde049ab48d3c6f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:24 +0000
Subject: [PATCH 48/86] fix: Markov generation accepts steps on which no event
 starts

---
 gsapi/gsstyles.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/gsapi/gsstyles.py b/gsapi/gsstyles.py
index eb75eb4..adc4c25 100644
--- a/gsapi/gsstyles.py
+++ b/gsapi/gsstyles.py
@@ -445,7 +445,7 @@ class PatternMarkov(object):
         while i < self.numSteps and maxTries > 0:
             newPast = tuple(events[i - self.order:i])
             newEv = _generateEventAtStep(i, newPast)
-            if newEv:
+            if newEv is not None:
                 events += [newEv]
                 maxTries = maxNumtries
                 i += 1
@@ -454,11 +454,11 @@ class PatternMarkov(object):
                 if maxTries == 0:
                     markovLog.error(
                             "not found combination %s at step %i \n transitions\n %s" % (
-                                ','.join(newPast), i, self.transitionTable[i]))
+                                str(newPast), i, self.transitionTable[i]))
                     raise Exception(" can't find combination in markov")
                 else:
                     markovLog.warning(
-                            "not found combination %s " % (','.join(newPast)))
+                            "not found combination %s " % str(newPast))
 
         pattern = Pattern()
         idx = 0
-- 
2.43.0


From 3751388a902b185d5d1bf974635cd9da5cbc04d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:24 +0000
Subject: [PATCH 49/86] fix: Markov generation starts from a past that was
 learned

---
 gsapi/gsstyles.py | 27 +--------------------------
 1 file changed, 1 insertion(+), 26 deletions(-)

diff --git a/gsapi/gsstyles.py b/gsapi/gsstyles.py
index adc4c25..2fc0d9a 100644
--- a/gsapi/gsstyles.py
+++ b/gsapi/gsstyles.py
@@ -386,22 +386,6 @@ class PatternMarkov(object):
             seed: seed used for random initialisation of pattern (value of None generates a new one)
         """
         random.seed(seed)
-        potentialStartEvent = []
-
-        def _getAvailableAtStep(step):
-            res = []
-            if step < 0:
-                step += len(self.transitionTable)
-            for n in self.transitionTable[step]:
-                for t in self.transitionTable[step][n]:
-                    res += [t]
-            return res
-
-        def _isValidState(step, previousTags):
-            d = self.transitionTable[step]
-            # print(d)
-            # print(previousTags)
-            return previousTags in d
 
         def _generateEventAtStep(step, previousTags):
 
@@ -427,16 +411,7 @@ class PatternMarkov(object):
 
             return list(d.keys())[chosenIdx]
 
-        cIdx = self.order
-        startHypothesis = tuple()
-        maxNumtries = 30
-        while not _isValidState(cIdx, startHypothesis):
-            startHypothesis = tuple()
-            for n in range(self.order):
-                startHypothesis += (random.choice(_getAvailableAtStep(n)),)
-            maxNumtries -= 1
-            if maxNumtries == 0:
-                raise Exception("Can't find start hypothesis in markov")
+        startHypothesis = random.choice(list(self.transitionTable[self.order].keys()))
 
         events = list(startHypothesis)
         i = self.order
-- 
2.43.0


From 7abae6a156afa645de4bfc9f4a20262165570be1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:24 +0000
Subject: [PATCH 50/86] fix: a Markov state does not depend on the order of
 simultaneous events

---
 gsapi/gsstyles.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gsapi/gsstyles.py b/gsapi/gsstyles.py
index 2fc0d9a..f3fd789 100644
--- a/gsapi/gsstyles.py
+++ b/gsapi/gsstyles.py
@@ -473,8 +473,8 @@ class PatternMarkov(object):
             for e in evAtStep:
                 curL += [e.tag]
 
-            # set allow for having consistent ordering, and remove step-wise overlapping events
-            res += (tuple(set(curL)),)
+            # sorting a set gives a consistent ordering, and removes step-wise overlapping events
+            res += (tuple(sorted(set(curL), key=lambda tag: ("%s" % (tag,), hash(tag)))),)
         return res
 
     def formatPattern(self, p):
-- 
2.43.0


From d329df3d4866929369ab3853d45a8855ff66edc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:24 +0000
Subject: [PATCH 51/86] fix: Markov styles can be saved to and loaded from JSON

---
 gsapi/gsstyles.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/gsapi/gsstyles.py b/gsapi/gsstyles.py
index f3fd789..a326470 100644
--- a/gsapi/gsstyles.py
+++ b/gsapi/gsstyles.py
@@ -498,7 +498,10 @@ class PatternMarkov(object):
     def getInternalState(self):
         """utility function to save current state
         """
-        res = {"transitionTable": self.transitionTable, "order": self.order,
+        # JSON has neither tuples nor dictionaries keyed by them, thus use lists of pairs.
+        table = [[[past, list(states.items())] for past, states in step.items()]
+                 for step in self.transitionTable]
+        res = {"transitionTable": table, "order": self.order,
                "numSteps":        self.numSteps,
                "loopDuration":    self.loopDuration}
         return res
@@ -507,7 +510,15 @@ class PatternMarkov(object):
         """
         Utility function to load the current state.
         """
-        self.transitionTable = state["transitionTable"]
+
+        def _toTuple(element):
+            if isinstance(element, (list, tuple)):
+                return tuple(_toTuple(e) for e in element)
+            return element
+
+        self.transitionTable = [dict((_toTuple(past), dict((_toTuple(s), p) for s, p in states))
+                                     for past, states in step)
+                                for step in state["transitionTable"]] or {}
         self.order = state["order"]
         self.numSteps = state["numSteps"]
         self.loopDuration = state["loopDuration"]
-- 
2.43.0


From 130a807d83437245de68061f27e3c0c559114913 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:24 +0000
Subject: [PATCH 52/86] fix: styles are saved to and loaded from pickle files

---
 gsapi/gsstyles.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/gsapi/gsstyles.py b/gsapi/gsstyles.py
index a326470..c86f43b 100644
--- a/gsapi/gsstyles.py
+++ b/gsapi/gsstyles.py
@@ -105,7 +105,8 @@ class BaseStyle(object):
             import pickle
         else:
             import cPickle as pickle
-        pickle.dump(self, filePath)
+        with open(filePath, 'wb') as f:
+            pickle.dump(self, f)
 
     def loadFromPickle(self, filePath):
         import sys
@@ -113,7 +114,8 @@ class BaseStyle(object):
             import pickle
         else:
             import cPickle as pickle
-        self = pickle.load(filePath)
+        with open(filePath, 'rb') as f:
+            self.__dict__.update(pickle.load(f).__dict__)
 
 
 class DatabaseStyle(BaseStyle):
-- 
2.43.0


From a4046715939955f8c46eb03b0836bf4bd35d804e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:24 +0000
Subject: [PATCH 53/86] fix: database styles report whether they are built

---
 gsapi/gsstyles.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gsapi/gsstyles.py b/gsapi/gsstyles.py
index c86f43b..8ab3dcd 100644
--- a/gsapi/gsstyles.py
+++ b/gsapi/gsstyles.py
@@ -171,7 +171,7 @@ class DatabaseStyle(BaseStyle):
             self.patternList += [p]
 
     def isBuilt(self):
-        self.patternList != []
+        return self.patternList != []
 
 
 class MarkovStyle(BaseStyle):
-- 
2.43.0


From c9a6c19077d86989689ba408d2c7f23dd6b8a90b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:54 +0000
Subject: [PATCH 54/86] fix: the density transformer keeps account of added and
 removed events, and reaches the density asked for

---
 gsapi/gstransformers.py | 98 +++++++++++++++--------------------------
 1 file changed, 36 insertions(+), 62 deletions(-)

diff --git a/gsapi/gstransformers.py b/gsapi/gstransformers.py
index 484e9df..b837083 100644
--- a/gsapi/gstransformers.py
+++ b/gsapi/gstransformers.py
@@ -103,53 +103,27 @@ class AgnosticDensity(BaseTransformer):
     def updateNormalizedDensities(self, normalizedDict):
         for key, value in normalizedDict.items():
             if key in self.normalizedDensities:
-                originDensity = self.normalizedDensities[key]
-                # if we cross density one, reset to one then do the subsequent calculations
-                if (value < 1 < originDensity) or (value > 1 > originDensity):
-                    # print "reset densities"
-                    self.resetDensities()
-
-                diffNormalized = value - self.normalizedDensities[key]
-                if diffNormalized == 0:
-                    continue
-
-                # here we are sure to not need to crossdensity one (and have to do both increment styles)
-                if originDensity >= 1 and value >= 1:
-                    step = 1.0 / (self.numSteps - self.originDensities[key])
-                    number = originDensity
-                    value = max(1, min(value, 2)) - step
-                    if diffNormalized > step:
-
-                        while number < value:
-                            self.addEventForTag(key, number)
-                            number += step
-                    if diffNormalized < -step:
-                        while number > value:
-                            self.removeEventForTag(key, number)
-                            number -= step
-                    self.normalizedDensities[key] = 1.0 + int((value - 1.0) / step) * 1.0 * step
-
-                if originDensity <= 1 and value < 1:
-                    step = 1.0 / (self.originDensities[key])
-                    number = originDensity
-                    value = max(0, min(value, 1)) + step
-                    if diffNormalized > step:
-                        while number < value:
-                            self.addEventForTag(key, number)
-                            number += step
-                    if diffNormalized < -step:
-                        while number > value:
-                            self.removeEventForTag(key, number)
-                            number -= step
-                    self.normalizedDensities[key] = int(value / step) * 1.0 * step
+                value = max(0, min(value, 2))
+                state = self.currentState[key]
+                numNotes = len(state['notes']) - len(state['addedNotes']) + len(state['removedNotes'])
+                if value <= 1:
+                    target = int(round(value * numNotes))
+                else:
+                    target = numNotes + int(round((value - 1) * (self.numSteps - numNotes)))
+
+                while len(state['notes']) < target:
+                    self.addEventForTag(key)
+                while len(state['notes']) > target:
+                    self.removeEventForTag(key)
+                self.normalizedDensities[key] = value
         self.currentPattern.reorderEvents()
 
-    def addEventForTag(self, tag, targetDensity):
+    def addEventForTag(self, tag):
 
-        availableIdx = self.currentState[tag]['silences']
+        state = self.currentState[tag]
         # we need to go toward origin pattern if adding while having lower density
-        if targetDensity < 1:
-            availableIdx = self.currentState[tag]['removedNotes']
+        towardOrigin = len(state['removedNotes']) > 0
+        availableIdx = state['removedNotes'] if towardOrigin else state['silences']
 
         idx = 0
         if self.mode == 'hysteresis':
@@ -157,25 +131,25 @@ class AgnosticDensity(BaseTransformer):
 
         idxToAdd = availableIdx[idx]
 
-        orIdx = self.currentState[tag]['silences'].index(idxToAdd)
-        del self.currentState[tag]['silences'][orIdx]
-        if targetDensity < 1:
-            del self.currentState[tag]['removedNotes'][idx]
-
-        self.currentState[tag]['addedNotes'] += [idxToAdd]
-        tPattern = self.currentPattern.getPatternWithTags(tag, makeCopy=False)
-        newEv = tPattern.events[0].copy()
+        state['silences'].remove(idxToAdd)
+        state['notes'] += [idxToAdd]
+        tPattern = self.originPattern.getPatternWithTags(tag, makeCopy=False)
+        if towardOrigin:
+            state['removedNotes'].remove(idxToAdd)
+            newEv = tPattern.getStartingEventsAtTime(idxToAdd)[0].copy()
+        else:
+            state['addedNotes'] += [idxToAdd]
+            newEv = tPattern.events[0].copy()
         newEv.startTime = idxToAdd
         newEv.duration = 1
         self.currentPattern.events += [newEv]
 
-    def removeEventForTag(self, tag, targetDensity):
-
-        availableIdx = self.currentState[tag]['notes']
+    def removeEventForTag(self, tag):
 
+        state = self.currentState[tag]
         # we need to go toward origin pattern if removing while having higher density
-        if targetDensity > 1:
-            availableIdx = self.currentState[tag]['addedNotes']
+        towardOrigin = len(state['addedNotes']) > 0
+        availableIdx = state['addedNotes'] if towardOrigin else state['notes']
 
         idx = 0
         if self.mode == 'hysteresis':
@@ -183,12 +157,12 @@ class AgnosticDensity(BaseTransformer):
 
         idxToRemove = availableIdx[idx]
 
-        orIdx = self.currentState[tag]['notes'].index(idxToRemove)
-        del self.currentState[tag]['notes'][orIdx]
-        if targetDensity > 1:
-            del self.currentState[tag]['addedNotes'][idx]
-
-        self.currentState[tag]['removedNotes'] += [idxToRemove]
+        state['notes'].remove(idxToRemove)
+        state['silences'] += [idxToRemove]
+        if towardOrigin:
+            state['addedNotes'].remove(idxToRemove)
+        else:
+            state['removedNotes'] += [idxToRemove]
         tPattern = self.currentPattern.getPatternWithTags(tag, makeCopy=False)
 
         eventToRemove = tPattern.getStartingEventsAtTime(idxToRemove)[0]
-- 
2.43.0


From 1ca8f1b94433e7d0b3f339792aa1ad583fd73334 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:54 +0000
Subject: [PATCH 55/86] fix: the notes of a voice are the steps on which its
 events start

---
 gsapi/gstransformers.py | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/gsapi/gstransformers.py b/gsapi/gstransformers.py
index b837083..322bfa0 100644
--- a/gsapi/gstransformers.py
+++ b/gsapi/gstransformers.py
@@ -184,13 +184,8 @@ class AgnosticDensity(BaseTransformer):
 
     def __initStateFromVoice(self, voice):
         state = {'notes': [], 'silences': [], 'addedNotes': [], 'removedNotes': []}
-        curEvent = voice.events[0]
-        curEvtIdx = 0
         for t in range(self.numSteps):
-            if curEvent.containsTime(t):
-                curEvtIdx += 1
-                curEvtIdx = min(len(voice.events) - 1, curEvtIdx)
-                curEvent = voice.events[curEvtIdx]
+            if voice.getStartingEventsAtTime(t):
                 state['notes'] += [t]
             else:
                 state['silences'] += [t]
-- 
2.43.0


From c9f1f95e33bb3fbecd47277d0de642025116bc88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:54 +0000
Subject: [PATCH 56/86] fix: Chordify lists one chord per onset, with the tags
 of its events

---
 gsapi/gstransformers.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/gsapi/gstransformers.py b/gsapi/gstransformers.py
index 322bfa0..e0508a8 100644
--- a/gsapi/gstransformers.py
+++ b/gsapi/gstransformers.py
@@ -263,14 +263,14 @@ class Chordify(BaseTransformer):
     def transformPattern(self):
         """Return a transformed Pattern"""
         self.outputPattern = self.inputPattern.copyWithoutEvents()
-        p = -1
+        self.inputPattern.reorderEvents()
+        p = None
         for e in self.inputPattern:
             if e.startTime != p:
                 new_chord = EventChord(startTime=e.startTime, duration=e.duration, components=[], tag=())
                 for ee in self.inputPattern.activeEventsAtTime(e.startTime):
                     new_chord.components.append([ee.pitch, ee.velocity])
-                    for tag in ee.tag:
-                        new_chord.tag.append(tag)
+                    new_chord.tag += ee.tag if isinstance(ee.tag, tuple) else (ee.tag,)
                 self.outputPattern.addEvent(new_chord)
             p = e.startTime
         return self.outputPattern
-- 
2.43.0


From 4c4d373ed77b6582c094ea83b78b2fcc39e7cd00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:13 +0000
Subject: [PATCH 57/86] fix: the density transformer compares a pattern with
 the one it was given, not with its aligned copy

---
 gsapi/gstransformers.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/gsapi/gstransformers.py b/gsapi/gstransformers.py
index e0508a8..4909a56 100644
--- a/gsapi/gstransformers.py
+++ b/gsapi/gstransformers.py
@@ -75,6 +75,7 @@ class AgnosticDensity(BaseTransformer):
         self.normalizedDensities = {}
         self.targetDensities = {}
         self.mode = mode
+        self.inputPattern = None
         self.originPattern = None
         self.currentPattern = None
         self.originDuration = 0
@@ -90,7 +91,7 @@ class AgnosticDensity(BaseTransformer):
             self.buildDensityMap(paramDict['inputPattern'])  # TODO: Faltaba el self.
 
     def transformPattern(self, pattern, paramDict):
-        if pattern is not None and pattern != self.originPattern:
+        if pattern is not None and pattern != self.inputPattern:
             self.buildDensityMap(pattern)
         if self.originPattern is None:
             return
@@ -205,6 +206,7 @@ class AgnosticDensity(BaseTransformer):
             self.normalizedDensities[t] = 1
 
     def buildDensityMap(self, pattern):
+        self.inputPattern = pattern.copy()
         self.originPattern = pattern.copy()
         self.originDuration = pattern.duration
         self.originPattern.timeStretch(self.numSteps * 1.0 / self.originPattern.duration)
-- 
2.43.0


From ce7e4e89732a4447011550fa0f3a870e6f15a963 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:56 +0000
Subject: [PATCH 58/86] fix: normalizing a bass model leaves its counts as they
 are

---
 gsapi/bassmine.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/gsapi/bassmine.py b/gsapi/bassmine.py
index ccd7c0a..81c69b6 100644
--- a/gsapi/bassmine.py
+++ b/gsapi/bassmine.py
@@ -22,6 +22,7 @@ def normalize(a):
     Returns:
         a: normalized matrix
     """
+    a = np.array(a, dtype=float)
     c = 0
     for row in a:
         factor = sum(row)
-- 
2.43.0


From ec07e36036aa390fd60555d434bc70f2162544cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:56 +0000
Subject: [PATCH 59/86] fix: sampling a distribution reaches its last element

---
 gsapi/bassmine.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gsapi/bassmine.py b/gsapi/bassmine.py
index 81c69b6..9a25c40 100644
--- a/gsapi/bassmine.py
+++ b/gsapi/bassmine.py
@@ -52,7 +52,7 @@ def pdf_sampling(n):  # variable argument list
 
     x = random.random()
     f = 0
-    for i in range(1, len(n)):
+    for i in range(1, len(n) + 1):
         if x < sum(n[0:i]):
             f = i - 1
             break
-- 
2.43.0


From c0e9f37eeeecd25f1566ac9b9126f03081f6a0a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:56 +0000
Subject: [PATCH 60/86] fix: the last transition of a bass line is learned too

---
 gsapi/bassmine.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/gsapi/bassmine.py b/gsapi/bassmine.py
index 9a25c40..e9265e1 100644
--- a/gsapi/bassmine.py
+++ b/gsapi/bassmine.py
@@ -122,15 +122,13 @@ class MarkovModel:
         Args:
             pattern: list or array with idx of the state dictionary
         """
-        count = 0
-        for p in pattern:
+        for count in range(len(pattern)):
             if count == 0:
-                self.update_initial(p)
-            elif 0 < count < len(pattern) - 1:
-                self.update_temporal(pattern[count - 1], p)
-            elif count == len(pattern) - 1:
+                self.update_initial(pattern[0])
+            else:
+                self.update_temporal(pattern[count - 1], pattern[count])
+            if count == len(pattern) - 1:
                 self.update_temporal(pattern[count], pattern[0])
-            count += 1
 
     def add_interlocking(self, patt_kick, patt_bass):
         """
-- 
2.43.0


From 751d6ee74523b98d17e686ce423bbb9861f3342e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:56 +0000
Subject: [PATCH 61/86] fix: bass models are written into the folder asked for,
 created if missing

---
 gsapi/bassmine.py | 41 +++++++++++++++++------------------------
 1 file changed, 17 insertions(+), 24 deletions(-)

diff --git a/gsapi/bassmine.py b/gsapi/bassmine.py
index e9265e1..64afcfe 100644
--- a/gsapi/bassmine.py
+++ b/gsapi/bassmine.py
@@ -32,6 +32,16 @@ def normalize(a):
     return a
 
 
+def _writeJSON(data, path, name):
+    """
+    Write data to the JSON file 'name' in folder 'path'
+    """
+    if path and not os.path.exists(path):
+        os.makedirs(path)
+    with open(os.path.join(path, name), 'w') as outfile:
+        json.dump(data, outfile)
+
+
 def indices(a, func):
     """
     Return indices in an array matching to a given function
@@ -238,14 +248,8 @@ class MarkovModel:
             rhythm_dict[key]['pattern'] = [int(r) for r in rhythm_temporal_model[key]]
             rhythm_dict[key]['probs'] = list(tmp / sum(tmp))
 
-        ePath = os.path.abspath(os.path.join(path, 'HModel.json'))
-        with open(ePath, 'w') as outfile:
-            json.dump(rhythm_dict, outfile)
-            outfile.close()
-
-        with open(path + 'HModel_init.json', 'w') as outfile:
-            json.dump(init_dict, outfile)
-            outfile.close()
+        _writeJSON(rhythm_dict, path, 'HModel.json')
+        _writeJSON(init_dict, path, 'HModel_init.json')
         # print( "Rhythm model computed\n", rhythm_dict)
         return [init_dict, rhythm_dict]
 
@@ -412,13 +416,8 @@ def constrainMM(markov_model, target, _path="output/"):
             out_Model[i][key]['pattern'] = [int(x) for x in val]
             out_Model[i][key]['probs'] = list(tmp / sum(tmp))
     # print( out_Model)
-    with open(path + 'NHModel.json', 'w') as outfile:
-        json.dump(out_Model, outfile)
-        outfile.close()
-
-    with open(path + 'Model_init.json', 'w') as outfile:
-        json.dump(init_dict, outfile)
-        outfile.close()
+    _writeJSON(out_Model, path, 'NHModel.json')
+    _writeJSON(init_dict, path, 'Model_init.json')
 
     # print(("Interlocking model build!"))
 
@@ -567,13 +566,8 @@ def variationMM(markov_model, target, _path="output/"):
             out_Model[i][key]['pattern'] = [int(x) for x in val]
             out_Model[i][key]['probs'] = list(tmp / sum(tmp))
     # print( out_Model)
-    with open(path + 'NHModel_var.json', 'w') as outfile:
-        json.dump(out_Model, outfile)
-        outfile.close()
-
-    with open(path + 'Model_init_var.json', 'w') as outfile:
-        json.dump(init_dict, outfile)
-        outfile.close()
+    _writeJSON(out_Model, path, 'NHModel_var.json')
+    _writeJSON(init_dict, path, 'Model_init_var.json')
 
     print(("Variation model build!"))
     return [init_dict, out_Model]
@@ -651,8 +645,7 @@ def createMarkovGenerationDictionary(toJSON=False, _path="output/"):
     data = out
 
     if toJSON:
-        with open(path + name + '.json', 'w') as outfile:
-            json.dump(data, outfile)
+        _writeJSON(data, path, name + '.json')
 
     return data
 
-- 
2.43.0


From 5441b1eb1ce0ff160211979cabc6d65cd9f0c2a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:56 +0000
Subject: [PATCH 62/86] fix: the initial beats of a constrained model are a
 list, as json and numpy need

---
 gsapi/bassmine.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gsapi/bassmine.py b/gsapi/bassmine.py
index 64afcfe..e4612be 100644
--- a/gsapi/bassmine.py
+++ b/gsapi/bassmine.py
@@ -400,7 +400,7 @@ def constrainMM(markov_model, target, _path="output/"):
         init.append(b0[key])
     init_dict['initial'] = dict()
     init_dict['initial']['prob'] = list(init / sum(init))
-    init_dict['initial']['pattern'] = V[0].keys()
+    init_dict['initial']['pattern'] = list(V[0].keys())
     # print( init_dict)
     for i in range(len(V)):
         out_Model[i] = {}
-- 
2.43.0


From b0d14ff1b6aa6af730fabff7f1b487163387dac3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:56 +0000
Subject: [PATCH 63/86] fix: constrained bass models have no dead ends

---
 gsapi/bassmine.py | 86 +++++++++++++++--------------------------------
 1 file changed, 28 insertions(+), 58 deletions(-)

diff --git a/gsapi/bassmine.py b/gsapi/bassmine.py
index e4612be..9486e7b 100644
--- a/gsapi/bassmine.py
+++ b/gsapi/bassmine.py
@@ -365,32 +365,9 @@ def constrainMM(markov_model, target, _path="output/"):
                 # print( "check\n")
                 # print( "V", step, V[step].keys())
 
-    ## Delete values from each key in V[i] that are not in V[i+1]
-    val_del = dict()
-    ## Font-propagation
-    for step in range(1, len(target) - 1):
-        val_del_temp = []
-        next_key = set([str(x) for x in V[step].keys()])
-        # print( next_key)
-        for key, value in V[step - 1].items():
-            # print( key, value)
-            tmp_int = value.intersection(next_key)
-            # if len(tmp_int) > 0:
-            V[step - 1][key] = tmp_int
-            if len(tmp_int) == 0:
-                val_del_temp.append(key)
-        val_del[step] = val_del_temp
-    #  print( val_del)
-    #  Back-propagation
-    for step, value in val_del.items():
-        if len(value) > 0:
-            for v in value:
-                ## Delete key
-                V[step - 1].pop(v, None)
-            #  Delete in previous continuations
-            # print( V[step-2])
-            for idx in V[step - 2].keys():
-                V[step - 2][idx] = set([str(x) for x in V[step - 1].keys()]).intersection(V[step - 2][idx])
+    ## Delete values from each key in V[i] that are not in V[i+1], from the last step
+    ## to the first: a key that is left without continuations is deleted as well
+    _propagate(V)
     # BUILD FINAL DICTIONARY
     # print( "\nFinal Model:")
     out_Model = {}
@@ -424,6 +401,21 @@ def constrainMM(markov_model, target, _path="output/"):
     return [init_dict, out_Model]
 
 
+def _propagate(V):
+    """
+    Make a non-homogeneous model backtrack free.
+
+    Args:
+        V: list with a dictionary of continuations per step
+    """
+    for step in range(len(V) - 2, -1, -1):
+        next_key = set([str(x) for x in V[step + 1].keys()])
+        for key in list(V[step].keys()):
+            V[step][key] = V[step][key].intersection(next_key)
+            if len(V[step][key]) == 0:
+                del V[step][key]
+
+
 def variationMM(markov_model, target, _path="output/"):
     """
     Compute non-homogeneuous markov model (NHMM) based on variation constraint.
@@ -501,41 +493,19 @@ def variationMM(markov_model, target, _path="output/"):
     # print( V)
 
 
-    ## Delete values from each key in V[i] that are not in V[i+1]
-    val_del = dict()
-    ## Font-propagation
-    for step in range(1, len(target) - 1):
-        val_del_temp = []
-        next_key = set([str(x) for x in V[step].keys()])
-        # print( next_key)
-        for key, value in V[step - 1].items():
-            # print( key, value)
-            tmp_int = value.intersection(next_key)
-            # if len(tmp_int) > 0:
-            V[step - 1][key] = tmp_int
-            if len(tmp_int) == 0:
-                val_del_temp.append(key)
-        val_del[step] = val_del_temp
-    # print( val_del)
-    ## Back-propagation
-    for step, value in val_del.items():
-        if len(value) > 0:
-            for v in value:
-                ## Delete key
-                V[step - 1].pop(v, None)
-            ## Delete in previous continuations
-            # print( V[step-2])
-            for idx in V[step - 2].keys():
-                V[step - 2][idx] = set([str(x) for x in V[step - 1].keys()]).intersection(V[step - 2][idx])
+    ## Force last beat
+    if target[len(target) - 1] >= 0:
+        for key in list(V[len(V) - 1].keys()):
+            V[len(V) - 1][key] = V[len(V) - 1][key].intersection({str(target[len(target) - 1])})
+            if len(V[len(V) - 1][key]) == 0:
+                del V[len(V) - 1][key]
+
+    ## Delete values from each key in V[i] that are not in V[i+1], from the last step
+    ## to the first: a key that is left without continuations is deleted as well
+    _propagate(V)
     # BUILD FINAL DICTIONARY
     # print( "\nFinal Model:")
 
-    for key, val in V[len(V) - 1].items():
-        tmp_val = val.intersection({str(target[len(target) - 1])})
-        # print( tmp_val)
-        if len(tmp_val) > 0:
-            V[len(V) - 1][key] = tmp_val
-
     # for value in V:
     #	print( value)
     #	print( "\n")
-- 
2.43.0


From 69ea5547a919ae40bc0aacf64b57a93b08a0ee66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:56 +0000
Subject: [PATCH 64/86] fix: the length of a constrained bass line is that of
 its target in beats, not in events

---
 gsapi/bassmine.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gsapi/bassmine.py b/gsapi/bassmine.py
index 9486e7b..7be363b 100644
--- a/gsapi/bassmine.py
+++ b/gsapi/bassmine.py
@@ -649,8 +649,8 @@ def generateBassRhythm(markov_model, beat_length=8, target=[]):
 
     else:  # use constrained model
 
-        if len(target) < beat_length:
-            beat_length = len(target)
+        if target.duration < beat_length:
+            beat_length = int(target.duration)
 
         NHMM = constrainMM(markov_model, target)
         pattern_idx.append(np.random.choice(NHMM[0]['initial']['pattern'], p=NHMM[0]['initial']['prob']))
-- 
2.43.0


From a0d3d8471f288a8800e06bd5b972ced8abc46afa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:56 +0000
Subject: [PATCH 65/86] fix: beat codes of patterns whose duration is not an
 integer, and of other resolutions

---
 gsapi/bassmine.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gsapi/bassmine.py b/gsapi/bassmine.py
index 7be363b..0f885d4 100644
--- a/gsapi/bassmine.py
+++ b/gsapi/bassmine.py
@@ -885,10 +885,10 @@ def binaryBeatPattern(aPattern, noBeats_bass, resolution=4):
     # noBeats_bass = uf.numberOfBeats(aPattern)  # Bass files length set the global length of analysis
     print('\n# of beats: ', noBeats_bass)
     # beat_subdiv = np.arange(start=0, step=0.25, stop=(noBeats_bass * RES) - 1)
-    subdiv_aux = np.array([0., 0.25, 0.5, 0.75])
+    subdiv_aux = np.arange(resolution) / float(resolution)
     # Matrix to store the binary representation of the midi files
     # Basslines -> 1 matrix
-    rhythm = np.zeros((noBeats_bass, resolution), dtype=int)
+    rhythm = np.zeros((int(np.ceil(noBeats_bass)), resolution), dtype=int)
 
     for o in aPattern:
         # quantize to the closest subdivision
-- 
2.43.0


From cf567290a3bb34f34305c2f68521fd7c6a6160e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:56 +0000
Subject: [PATCH 66/86] fix: a bass line variation has the length of its target
 and may vary beats without onsets

---
 gsapi/bassmine.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gsapi/bassmine.py b/gsapi/bassmine.py
index 0f885d4..d3b034f 100644
--- a/gsapi/bassmine.py
+++ b/gsapi/bassmine.py
@@ -738,7 +738,8 @@ def generateBassRhythmVariation(markov_model, target_pattern, variation_mask):
         target_rhythm = binaryBeatPattern(onset_target, target_pattern.duration)
         target_id = translate_rhythm(target_rhythm)
         # Mask formatted pattern
-        masked_target = [target_id[i] * variation_mask[i] for i in range(len(variation_mask) - 1)]
+        # (the first beat is always preserved)
+        masked_target = [target_id[i] if i == 0 or variation_mask[i] > 0 else -1 for i in range(len(target_id))]
 
         # Build variation model
         NHMM = variationMM(markov_model, masked_target)
-- 
2.43.0


From 2decdb2e34ebff374a7e68d03edaf3d6af13189e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:24 +0000
Subject: [PATCH 67/86] fix: beat codes are plain integers, as json needs

---
 gsapi/bassmine.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gsapi/bassmine.py b/gsapi/bassmine.py
index d3b034f..758d207 100644
--- a/gsapi/bassmine.py
+++ b/gsapi/bassmine.py
@@ -863,7 +863,7 @@ def translate_rhythm(rhythm):
     iddic = []
 
     for beat in rhythm:
-        iddic.append((beat[0] * 8) + (beat[1] * 4) + (beat[2] * 2) + beat[3])
+        iddic.append(int((beat[0] * 8) + (beat[1] * 4) + (beat[2] * 2) + beat[3]))
     return iddic
 
 
-- 
2.43.0


From a40adc0a7c96d352dffd54f6a66a0b565bbac27f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:24 +0000
Subject: [PATCH 68/86] fix: note spelling compares the accidental by value

---
 gsapi/gsutil.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/gsapi/gsutil.py b/gsapi/gsutil.py
index 25990e3..fa171d0 100644
--- a/gsapi/gsutil.py
+++ b/gsapi/gsutil.py
@@ -228,9 +228,9 @@ def makeChord(root, chord_structure):
 
 
 def pc2note(pitch_class, alt="#"):
-    if alt is "#":
+    if alt == "#":
         base40 = [2, 3, 8, 9, 14, 19, 20, 25, 26, 31, 32, 37]
-    elif alt is "b":
+    elif alt == "b":
         base40 = [2, 7, 8, 13, 14, 19, 24, 25, 30, 31, 36, 37]
     else:
         raise Exception("alt should be either '#' or 'b'")
@@ -238,9 +238,9 @@ def pc2note(pitch_class, alt="#"):
 
 
 def pc2base40(pitch_class, alt="#"):
-    if alt is "#":
+    if alt == "#":
         base40 = [2, 3, 8, 9, 14, 19, 20, 25, 26, 31, 32, 37]
-    elif alt is "b":
+    elif alt == "b":
         base40 = [2, 7, 8, 13, 14, 19, 24, 25, 30, 31, 36, 37]
     else:
         raise Exception("alt should be either '#' or 'b'")
-- 
2.43.0


From b07aec2724b2871b996574f343a9fa9359d7d7fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:24 +0000
Subject: [PATCH 69/86] fix: files whose names hold wildcard characters are
 matched and found

---
 gsapi/gsutil.py | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/gsapi/gsutil.py b/gsapi/gsutil.py
index fa171d0..7ebf3e2 100644
--- a/gsapi/gsutil.py
+++ b/gsapi/gsutil.py
@@ -79,18 +79,15 @@ def match_files(filename, match_list, suffix=None, match_suffix=None):
 
     """
     import os
-    import fnmatch
 
     # get the base name without the path
     basename = os.path.basename(strip_suffix(filename, suffix))
     # init return list
     matches = []
     # look for files with the same base name in the files_list
-    if match_suffix is not None:
-        pattern = "*%s*%s" % (basename, match_suffix)
-    else:
-        pattern = "*%s" % basename
-    for match in fnmatch.filter(match_list, pattern):
+    for match in match_list:
+        if match_suffix is not None and not match.endswith(match_suffix):
+            continue
         # base names must match exactly
         if basename == os.path.basename(strip_suffix(match, match_suffix)):
             matches.append(match)
@@ -117,7 +114,6 @@ def search_files(path, suffix=None):
 
     """
     import os
-    import glob
 
     # determine the files
     if isinstance(path, list):
@@ -128,14 +124,15 @@ def search_files(path, suffix=None):
             file_list.extend(search_files(f, suffix))
     elif os.path.isdir(path):
         # use all files in the given path
+        names = [f for f in os.listdir(path) if not f.startswith('.')]
         if suffix is None:
-            file_list = glob.glob("%s/*" % path)
+            file_list = ["%s/%s" % (path, f) for f in names]
         elif isinstance(suffix, list):
             file_list = []
             for s in suffix:
-                file_list.extend(glob.glob("%s/*%s" % (path, s)))
+                file_list.extend(["%s/%s" % (path, f) for f in names if f.endswith(s)])
         else:
-            file_list = glob.glob("%s/*%s" % (path, suffix))
+            file_list = ["%s/%s" % (path, f) for f in names if f.endswith(suffix)]
     elif os.path.isfile(path):
         file_list = []
         # no matching needed
-- 
2.43.0


From c046cdd772c5e2e2590233aa68588cc56288e659 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:14 +0000
Subject: [PATCH 70/86] fix: stripping an empty suffix leaves the name as it is

---
 gsapi/gsutil.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gsapi/gsutil.py b/gsapi/gsutil.py
index 7ebf3e2..69128f2 100644
--- a/gsapi/gsutil.py
+++ b/gsapi/gsutil.py
@@ -52,7 +52,7 @@ def strip_suffix(filename, suffix=None):
         Filename or string without suffix.
 
     """
-    if suffix is not None and filename.endswith(suffix):
+    if suffix and filename.endswith(suffix):
         return filename[:-len(suffix)]
     return filename
 
-- 
2.43.0


From 7964cf51fdfa28e21038e27a3d04c9bf6fb4885b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:21 +0000
Subject: [PATCH 71/86] fix: ninth of min9 is major

---
 gsapi/gsdefs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gsapi/gsdefs.py b/gsapi/gsdefs.py
index d35165a..281adc1 100644
--- a/gsapi/gsdefs.py
+++ b/gsapi/gsdefs.py
@@ -42,7 +42,7 @@ chordIntervals = {"0":           [],
                   "min(add#11)": [11, 12, 35],
                   "9":           [12, 11, 11, 12],
                   "maj9":        [12, 11, 12, 11],
-                  "min9":        [11, 12, 11, 11],
+                  "min9":        [11, 12, 11, 12],
                   "11":          [12, 11, 11, 12, 11],
                   "maj11":       [12, 11, 12, 11, 11],
                   "min11":       [11, 12, 11, 12, 11],
-- 
2.43.0


From 5f23ebeb871c82e08c1b3a3835b8da09ed73482e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:10 +0000
Subject: [PATCH 72/86] fix: copies do not share a time signature given as a
 list

---
 gsapi/gspattern.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gsapi/gspattern.py b/gsapi/gspattern.py
index 6a08cb7..78d7f23 100644
--- a/gsapi/gspattern.py
+++ b/gsapi/gspattern.py
@@ -412,7 +412,7 @@ class Pattern(object):
         p = Pattern()
         p.duration = self.duration
         p.bpm = self.bpm
-        p.timeSignature = self.timeSignature
+        p.timeSignature = copy.copy(self.timeSignature)
         p.key = self.key
         p.startTime = self.startTime
         p.resolution = self.resolution
-- 
2.43.0


From c8a8455a0a2eafe787e824bc073fdce7c2a791e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:45 +0000
Subject: [PATCH 73/86] fix: a copied MIDI event shares its data bytes with the
 original

---
 gsapi/midiio.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gsapi/midiio.py b/gsapi/midiio.py
index 7dc8eb8..8486597 100644
--- a/gsapi/midiio.py
+++ b/gsapi/midiio.py
@@ -360,7 +360,7 @@ class Event(AbstractEvent):
         super(Event, self).__init__(**kw)
 
     def copy(self, **kw):
-        _kw = {'channel': self.channel, 'tick': self.tick, 'data': self.data}
+        _kw = {'channel': self.channel, 'tick': self.tick, 'data': list(self.data)}
         _kw.update(kw)
         return self.__class__(**_kw)
 
-- 
2.43.0


From 057b69969e2e6d0b032c9c6768aa69f88abd9006 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:45 +0000
Subject: [PATCH 74/86] fix: a copied escape (F7) event becomes a system
 exclusive one

---
 gsapi/midiio.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/gsapi/midiio.py b/gsapi/midiio.py
index 8486597..00d9aae 100644
--- a/gsapi/midiio.py
+++ b/gsapi/midiio.py
@@ -533,6 +533,10 @@ class SysexEvent(Event):
     name = 'SysEx'
     length = 'varlen'
 
+    def copy(self, **kw):
+        kw.setdefault('statusmsg', self.statusmsg)
+        return super(SysexEvent, self).copy(**kw)
+
     def is_event(cls, statusmsg):
         return cls.statusmsg == statusmsg
 
-- 
2.43.0


From 52e5114f91f5131f69bd7dd90c94eb8a817c1f13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:45 +0000
Subject: [PATCH 75/86] fix: unknown meta events cannot be copied

---
 gsapi/midiio.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/gsapi/midiio.py b/gsapi/midiio.py
index 00d9aae..5686ee0 100644
--- a/gsapi/midiio.py
+++ b/gsapi/midiio.py
@@ -620,8 +620,10 @@ class UnknownMetaEvent(MetaEvent):
         self.metacommand = kw['metacommand']
 
     def copy(self, **kw):
-        kw['metacommand'] = self.metacommand
-        return super(UnknownMetaEvent, self).copy(kw)
+        _kw = {'tick': self.tick, 'data': list(self.data),
+               'metacommand': self.metacommand}
+        _kw.update(kw)
+        return self.__class__(**_kw)
 
 
 class ChannelPrefixEvent(MetaEvent):
-- 
2.43.0


From d6867b80962e2bb98e1e5b3a8522628b58e2e3ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:45 +0000
Subject: [PATCH 76/86] fix: a text set after a MIDI event is made is not
 written

---
 gsapi/midiio.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/gsapi/midiio.py b/gsapi/midiio.py
index 5686ee0..f9e4824 100644
--- a/gsapi/midiio.py
+++ b/gsapi/midiio.py
@@ -552,10 +552,16 @@ class SequenceNumberMetaEvent(MetaEvent):
 class MetaEventWithText(MetaEvent):
     def __init__(self, **kw):
         super(MetaEventWithText, self).__init__(**kw)
-        if 'text' not in kw:
-            self.text = ''.join(chr(datum) for datum in self.data)
-        elif 'data' not in kw:
-            self.data = [ord(char) for char in self.text]
+        if 'data' in kw:
+            self.data = kw['data']
+
+    def get_text(self):
+        return ''.join(chr(datum) for datum in self.data)
+
+    def set_text(self, val):
+        self.data = [ord(char) for char in val]
+
+    text = property(get_text, set_text)
 
     def __repr__(self):
         return self.__baserepr__(['text'])
-- 
2.43.0


From 22403a976c895dd66c452f27c5b67e2fdedfb642 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:45 +0000
Subject: [PATCH 77/86] fix: the printed form of a MIDI song, unknown meta or
 escape event does not make it again

---
 gsapi/midiio.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/gsapi/midiio.py b/gsapi/midiio.py
index f9e4824..dd733ec 100644
--- a/gsapi/midiio.py
+++ b/gsapi/midiio.py
@@ -214,7 +214,7 @@ class Pattern(list):
         super(Pattern, self).__init__(tracks)
 
     def __repr__(self):
-        return "midi.Pattern(format=%r, resolution=%r, tracks=\\\n%s)" % \
+        return "midi.Pattern(frmt=%r, resolution=%r, tracks=\\\n%s)" % \
                (self.frmt, self.resolution, pformat(list(self)))
 
     def make_ticks_abs(self):
@@ -537,6 +537,11 @@ class SysexEvent(Event):
         kw.setdefault('statusmsg', self.statusmsg)
         return super(SysexEvent, self).copy(**kw)
 
+    def __repr__(self):
+        if self.statusmsg != SysexEvent.statusmsg:
+            return self.__baserepr__(['channel', 'statusmsg'])
+        return super(SysexEvent, self).__repr__()
+
     def is_event(cls, statusmsg):
         return cls.statusmsg == statusmsg
 
@@ -625,6 +630,9 @@ class UnknownMetaEvent(MetaEvent):
         super(MetaEvent, self).__init__(**kw)
         self.metacommand = kw['metacommand']
 
+    def __repr__(self):
+        return self.__baserepr__(['metacommand'])
+
     def copy(self, **kw):
         _kw = {'tick': self.tick, 'data': list(self.data),
                'metacommand': self.metacommand}
-- 
2.43.0


From d5d25ff6aadaedef00ac92e8fee8efd146a72549 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:10 +0000
Subject: [PATCH 78/86] fix: a wrong length in a damaged MIDI file exhausts the
 memory

---
 gsapi/midiio.py | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/gsapi/midiio.py b/gsapi/midiio.py
index dd733ec..e0d36ff 100644
--- a/gsapi/midiio.py
+++ b/gsapi/midiio.py
@@ -59,6 +59,17 @@ class FileReader(object):
             self.parse_track(midifile, track)
         return pattern
 
+    def read_bytes(self, midifile, size):
+        # piecewise: a damaged file may claim any size
+        parts = []
+        while size > 0:
+            part = midifile.read(min(size, 65536))
+            if not part:
+                break
+            parts.append(part)
+            size -= len(part)
+        return ''.join(parts)
+
     def parse_file_header(self, midifile):
         # First four bytes are MIDI header
         magic = midifile.read(4)
@@ -78,7 +89,7 @@ class FileReader(object):
         # in the header are padding
         # (the size field does not count itself and the magic)
         if hdrsz > DEFAULT_MIDI_HEADER_SIZE - 8:
-            midifile.read(hdrsz - (DEFAULT_MIDI_HEADER_SIZE - 8))
+            self.read_bytes(midifile, hdrsz - (DEFAULT_MIDI_HEADER_SIZE - 8))
         return Pattern(tracks=tracks, resolution=resolution, frmt=frmt)
 
     def parse_track_header(self, midifile):
@@ -93,7 +104,7 @@ class FileReader(object):
     def parse_track(self, midifile, track):
         self.RunningStatus = None
         trksz = self.parse_track_header(midifile)
-        trackdata = iter(midifile.read(trksz))
+        trackdata = iter(self.read_bytes(midifile, trksz))
         while True:
             try:
                 event = self.parse_midi_event(trackdata)
@@ -115,12 +126,12 @@ class FileReader(object):
             else:
                 cls = EventRegistry.MetaEvents[cmd]
             datalen = read_varlen(trackdata)
-            data = [ord(trackdata.next()) for x in range(datalen)]
+            data = [ord(trackdata.next()) for x in xrange(datalen)]
             return cls(tick=tick, data=data, metacommand=cmd)
         # is this event a Sysex Event?
         elif SysexEvent.is_event(stsmsg) or stsmsg == 0xF7:
             datalen = read_varlen(trackdata)
-            data = [ord(trackdata.next()) for x in range(datalen)]
+            data = [ord(trackdata.next()) for x in xrange(datalen)]
             if stsmsg == 0xF7:
                 return SysexEvent(tick=tick, data=data, statusmsg=stsmsg)
             if data and data[-1] == 0xF7:
-- 
2.43.0


From 62ccc87282c08d9b33e61883b2c9b052db45f576 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:10 +0000
Subject: [PATCH 79/86] fix: a note that is never released is imported with a
 negative duration

---
 gsapi/gsio.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/gsapi/gsio.py b/gsapi/gsio.py
index ad30674..dbf6b51 100644
--- a/gsapi/gsio.py
+++ b/gsapi/gsio.py
@@ -215,6 +215,12 @@ def __fromMidiFormat(midiPath, noteToTagMap, tracksToGet=None, tagFromTrackName=
                     if not foundNoteOn:
                         gsioLog.warning(myPattern.name + ": not found note on\n %s\n%s , %s " %
                                         (e, noteTag, curBeat))
+        # notes that were never released sound until their track ends
+        for channel, i in noteOns:
+            if i.duration < 0:
+                trackEnd = tracks[-1].tick * tick_to_quarter_note
+                i.duration = max(0.0001, trackEnd - i.startTime)
+                lastNoteOff = max(i.endTime(), lastNoteOff)
         trackIdx += 1
     elementSize = 4.0 / myPattern.timeSignature[1]
     barSize = myPattern.timeSignature[0] * elementSize
-- 
2.43.0


From f318dc8b3fc17b8b981f9733abe9637119f883d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:54 +0000
Subject: [PATCH 80/86] fix: bassmine fails for a one-beat target

---
 gsapi/bassmine.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/gsapi/bassmine.py b/gsapi/bassmine.py
index 758d207..7f2f560 100644
--- a/gsapi/bassmine.py
+++ b/gsapi/bassmine.py
@@ -342,7 +342,9 @@ def constrainMM(markov_model, target, _path="output/"):
         #	print( "Kick constrain", target_setlist[1])
         #	print( "Intersection", Dom_B[int(f)].intersection(target_setlist[1]))
 
-        if len(Dom_B[int(f)].intersection(target_setlist[1])) > 0:
+        if len(target) == 1:  # nothing has to follow
+            V[0][int(f)] = set()
+        elif len(Dom_B[int(f)].intersection(target_setlist[1])) > 0:
             V[0][int(f)] = Dom_B[int(f)].intersection(target_setlist[1])
             tmp.append(f)
     # print( "\n\n")
@@ -379,7 +381,7 @@ def constrainMM(markov_model, target, _path="output/"):
     init_dict['initial']['prob'] = list(init / sum(init))
     init_dict['initial']['pattern'] = list(V[0].keys())
     # print( init_dict)
-    for i in range(len(V)):
+    for i in range(len(target) - 1):
         out_Model[i] = {}
         # print( "step:",i)
         for key, val in V[i].items():
@@ -457,7 +459,9 @@ def variationMM(markov_model, target, _path="output/"):
 
     V.append(dict())
 
-    if target[1] >= 0:
+    if len(target) == 1:  # nothing has to follow
+        V[0][target[0]] = set()
+    elif target[1] >= 0:
         V[0][target[0]] = {str(target[1])}
     else:
         V[0][target[0]] = Dom_B[target[0]]
@@ -494,7 +498,7 @@ def variationMM(markov_model, target, _path="output/"):
 
 
     ## Force last beat
-    if target[len(target) - 1] >= 0:
+    if len(target) > 1 and target[len(target) - 1] >= 0:
         for key in list(V[len(V) - 1].keys()):
             V[len(V) - 1][key] = V[len(V) - 1][key].intersection({str(target[len(target) - 1])})
             if len(V[len(V) - 1][key]) == 0:
@@ -521,7 +525,7 @@ def variationMM(markov_model, target, _path="output/"):
     init_dict['initial']['pattern'] = target[0]
     # print( init_dict)
 
-    for i in range(len(V)):
+    for i in range(len(target) - 1):
         out_Model[i] = {}
         # print( "step:",i)
         for key, val in V[i].items():
-- 
2.43.0


From 572d315d35933ae22b17df03e09ac2e6d9464307 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:26 +0000
Subject: [PATCH 81/86] fix: MarkovStyle.formatPattern fails with
 AttributeError

---
 gsapi/gsstyles.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/gsapi/gsstyles.py b/gsapi/gsstyles.py
index 8ab3dcd..f06c55a 100644
--- a/gsapi/gsstyles.py
+++ b/gsapi/gsstyles.py
@@ -225,11 +225,7 @@ class MarkovStyle(BaseStyle):
         return self.markovChain.generatePattern(seed=seed)
 
     def formatPattern(self, p):
-        # p.quantize(self.loopDuration * 1.0 / self.numSteps, self.numSteps * 1.0/ self.loopDuration)
-        p.timeStretch(self.numSteps * 1.0 / self.loopDuration)
-        p.alignOnGrid(1)
-        p.removeOverlapped()
-        p.fillWithSilences(maxSilenceTime=1)
+        self.markovChain.formatPattern(p)
 
     def getLastEvents(self, pattern, step, num, stepSize):
         events = []
-- 
2.43.0


From 8b052a326e9e75dcee494e9f5a6c46053b23d0bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:38 +0000
Subject: [PATCH 82/86] fix: MIDI files can neither be read nor written under
 Python 3

---
 gsapi/midiio.py | 66 +++++++++++++++++++++++++++++++------------------
 1 file changed, 42 insertions(+), 24 deletions(-)

diff --git a/gsapi/midiio.py b/gsapi/midiio.py
index e0d36ff..be3fc30 100644
--- a/gsapi/midiio.py
+++ b/gsapi/midiio.py
@@ -17,6 +17,12 @@ DEFAULT_MIDI_HEADER_SIZE = 14
 
 if sys.version_info < (3,):
 
+    def b(x):
+        return x
+
+    def text(x):
+        return x
+
     def write_midifile(midifile, pattern):
         if type(midifile) in (str, unicode):
             with open(midifile, 'wb') as f:
@@ -34,9 +40,14 @@ if sys.version_info < (3,):
 else:
     import codecs
 
+    xrange = range
+
     def b(x):
         return codecs.latin_1_encode(x)[0]
 
+    def text(x):
+        return codecs.latin_1_decode(x)[0]
+
     def write_midifile(midifile, pattern):
         if type(midifile) is str:
             with open(midifile, 'wb') as f:
@@ -68,13 +79,13 @@ class FileReader(object):
                 break
             parts.append(part)
             size -= len(part)
-        return ''.join(parts)
+        return text(b('').join(parts))
 
     def parse_file_header(self, midifile):
         # First four bytes are MIDI header
-        magic = midifile.read(4)
+        magic = text(midifile.read(4))
         if magic != 'MThd':
-            raise(TypeError, "Bad header in MIDI file.")
+            raise TypeError("Bad header in MIDI file.")
         # next four bytes are header size
         # next two bytes specify the format version
         # next two bytes specify the number of tracks
@@ -94,9 +105,9 @@ class FileReader(object):
 
     def parse_track_header(self, midifile):
         # First four bytes are Track header
-        magic = midifile.read(4)
+        magic = text(midifile.read(4))
         if magic != 'MTrk':
-            raise(TypeError, "Bad track header in MIDI file: " + magic)
+            raise TypeError("Bad track header in MIDI file: " + magic)
         # next four bytes are track size
         trksz = unpack(">L", midifile.read(4))[0]
         return trksz
@@ -116,22 +127,22 @@ class FileReader(object):
         # first datum is varlen representing delta-time
         tick = read_varlen(trackdata)
         # next byte is status message
-        stsmsg = ord(trackdata.next())
+        stsmsg = ord(next(trackdata))
         # is the event a MetaEvent?
         if MetaEvent.is_event(stsmsg):
-            cmd = ord(trackdata.next())
+            cmd = ord(next(trackdata))
             if cmd not in EventRegistry.MetaEvents:
                 midiioLog.warning("Unknown Meta MIDI Event: " + repr(cmd))
                 cls = UnknownMetaEvent
             else:
                 cls = EventRegistry.MetaEvents[cmd]
             datalen = read_varlen(trackdata)
-            data = [ord(trackdata.next()) for x in xrange(datalen)]
+            data = [ord(next(trackdata)) for x in xrange(datalen)]
             return cls(tick=tick, data=data, metacommand=cmd)
         # is this event a Sysex Event?
         elif SysexEvent.is_event(stsmsg) or stsmsg == 0xF7:
             datalen = read_varlen(trackdata)
-            data = [ord(trackdata.next()) for x in xrange(datalen)]
+            data = [ord(next(trackdata)) for x in xrange(datalen)]
             if stsmsg == 0xF7:
                 return SysexEvent(tick=tick, data=data, statusmsg=stsmsg)
             if data and data[-1] == 0xF7:
@@ -147,13 +158,13 @@ class FileReader(object):
                 cls = EventRegistry.Events[key]
                 channel = self.RunningStatus & 0x0F
                 data.append(stsmsg)
-                data += [ord(trackdata.next()) for x in range(cls.length - 1)]
+                data += [ord(next(trackdata)) for x in range(cls.length - 1)]
                 return cls(tick=tick, channel=channel, data=data)
             else:
                 self.RunningStatus = stsmsg
                 cls = EventRegistry.Events[key]
                 channel = self.RunningStatus & 0x0F
-                data = [ord(trackdata.next()) for x in range(cls.length)]
+                data = [ord(next(trackdata)) for x in range(cls.length)]
                 return cls(tick=tick, channel=channel, data=data)
         # raise(Warning, "Unknown MIDI Event: " + repr(stsmsg))
 
@@ -170,7 +181,7 @@ class FileWriter(object):
                         pattern.frmt,
                         len(pattern),
                         pattern.resolution)
-        midifile.write('MThd%s' % packdata)
+        midifile.write(b('MThd') + packdata)
 
     def write_track(self, midifile, track):
         buf = ''
@@ -178,10 +189,10 @@ class FileWriter(object):
         for event in track:
             buf += self.encode_midi_event(event)
         buf = self.encode_track_header(len(buf)) + buf
-        midifile.write(buf)
+        midifile.write(b(buf))
 
     def encode_track_header(self, trklen):
-        return 'MTrk%s' % pack(">L", trklen)
+        return 'MTrk%s' % text(pack(">L", trklen))
 
     def encode_midi_event(self, event):
         ret = ''
@@ -208,7 +219,7 @@ class FileWriter(object):
                 ret += chr(event.statusmsg | event.channel)
             ret += str.join('', map(chr, event.data))
         else:
-            raise(ValueError, "Unknown MIDI Event: " + str(event))
+            raise ValueError("Unknown MIDI Event: " + str(event))
         return ret
 
 
@@ -312,23 +323,30 @@ class EventRegistry(object):
                     "Event %s already registered" % event.name
                 cls.MetaEvents[event.metacommand] = event
         else:
-            raise(ValueError, "Unknown bases class in event type: " + event.name)
+            raise ValueError("Unknown bases class in event type: " + event.name)
 
     register_event = classmethod(register_event)
 
 
-class AbstractEvent(object):
+class EventType(type):
+    # registers the concrete events
+    def __init__(cls, name, bases, dict):
+        super(EventType, cls).__init__(name, bases, dict)
+        if name not in ['EventBase', 'AbstractEvent', 'Event', 'MetaEvent', 'NoteEvent',
+                        'MetaEventWithText']:
+            EventRegistry.register_event(cls, bases)
+
+
+# written as a call, which Python 2 and 3 both understand
+EventBase = EventType('EventBase', (object,), {})
+
+
+class AbstractEvent(EventBase):
     # __slots__ = ['tick', 'data']
     name = "Generic MIDI Event"
     length = 0
     statusmsg = 0x0
 
-    class __metaclass__(type):
-        def __init__(cls, name, bases, dict):
-            if name not in ['AbstractEvent', 'Event', 'MetaEvent', 'NoteEvent',
-                            'MetaEventWithText']:
-                EventRegistry.register_event(cls, bases)
-
     def __init__(self, **kw):
         if type(self.length) == int:
             defdata = [0] * self.length
@@ -776,7 +794,7 @@ def read_varlen(data):
     NEXTBYTE = 1
     value = 0
     while NEXTBYTE:
-        char = ord(data.next())
+        char = ord(next(data))
         # is the hi-bit set?
         if not (char & 0x80):
             # no next BYTE
-- 
2.43.0


From 12d47a0ce3b014846f32a038d3566602da607184 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:38 +0000
Subject: [PATCH 83/86] fix: MIDI events cannot be sorted under Python 3

---
 gsapi/midiio.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/gsapi/midiio.py b/gsapi/midiio.py
index be3fc30..97817ff 100644
--- a/gsapi/midiio.py
+++ b/gsapi/midiio.py
@@ -362,7 +362,11 @@ class AbstractEvent(EventBase):
             return -1
         elif self.tick > other.tick:
             return 1
-        return cmp(self.data, other.data)
+        return (self.data > other.data) - (self.data < other.data)
+
+    def __lt__(self, other):
+        # Python 3 does not look at __cmp__
+        return self.__cmp__(other) < 0
 
     def __baserepr__(self, keys=[]):
         keys = ['tick'] + keys + ['data']
-- 
2.43.0


From ab7e4aaadf7c3e32b7e2b0fe9507df029cc41317 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:38 +0000
Subject: [PATCH 84/86] fix: getStringTransitionTable changes the dictionary it
 walks over

---
 gsapi/gsstyles.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gsapi/gsstyles.py b/gsapi/gsstyles.py
index f06c55a..820e62d 100644
--- a/gsapi/gsstyles.py
+++ b/gsapi/gsstyles.py
@@ -341,7 +341,7 @@ class PatternMarkov(object):
 
         def _tupleToString(d):
             if isinstance(d, dict):
-                for k, v in d.items():
+                for k, v in list(d.items()):
                     if isinstance(k, tuple):
                         d[str(_tupleToString(k))] = d.pop(k)
                     _tupleToString(v)
-- 
2.43.0


From 5032783f2d521aee186cd91c430f1e80ab28f5f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:11 +0000
Subject: [PATCH 85/86] fix: events longer than about a thousand parts cannot
 be split

---
 gsapi/gspattern.py | 44 +++++++++++++++++++++++---------------------
 1 file changed, 23 insertions(+), 21 deletions(-)

diff --git a/gsapi/gspattern.py b/gsapi/gspattern.py
index 78d7f23..9eb8c26 100644
--- a/gsapi/gspattern.py
+++ b/gsapi/gspattern.py
@@ -1076,28 +1076,30 @@ class Pattern(object):
             a list of patterns of length desiredLength
         """
 
-        def _handleEvent(e, patterns, makeCopy, p=None):
-            if p is None:
-                p = int(math.floor(e.startTime * 1.0 / desiredLength))
-            numPattern = str(p)
-            if numPattern not in patterns:
-                patterns[numPattern] = patternToSlice.copyWithoutEvents()
-                patterns[numPattern].startTime = p * desiredLength
-                patterns[numPattern].duration = desiredLength
-                patterns[
-                    numPattern].name = (patternToSlice.name or "") + "_" + numPattern
+        def _handleEvent(e, patterns, makeCopy):
+            p = int(math.floor(e.startTime * 1.0 / desiredLength))
             newEv = e if not makeCopy else e.copy()
-
-            if newEv.startTime + newEv.duration > (p + 1) * desiredLength:
-                remainingEvent = e.copy()
-                newOnset = (p + 1) * desiredLength
-                remainingEvent.duration = remainingEvent.endTime() - newOnset
-                remainingEvent.startTime = newOnset
-                _handleEvent(remainingEvent, patterns, makeCopy, p + 1)
-                newEv.duration = (p + 1) * desiredLength - e.startTime
-
-            newEv.startTime -= p * desiredLength
-            patterns[numPattern].events += [newEv]
+            while newEv is not None:
+                numPattern = str(p)
+                if numPattern not in patterns:
+                    patterns[numPattern] = patternToSlice.copyWithoutEvents()
+                    patterns[numPattern].startTime = p * desiredLength
+                    patterns[numPattern].duration = desiredLength
+                    patterns[
+                        numPattern].name = (patternToSlice.name or "") + "_" + numPattern
+
+                remainingEvent = None
+                if newEv.startTime + newEv.duration > (p + 1) * desiredLength:
+                    remainingEvent = newEv.copy()
+                    newOnset = (p + 1) * desiredLength
+                    remainingEvent.duration = remainingEvent.endTime() - newOnset
+                    remainingEvent.startTime = newOnset
+                    newEv.duration = (p + 1) * desiredLength - newEv.startTime
+
+                newEv.startTime -= p * desiredLength
+                patterns[numPattern].events += [newEv]
+                newEv = remainingEvent
+                p += 1
 
         patterns = {}
 
-- 
2.43.0


From 211c2c8c80fc66e290d83acf903685e0fccdf143 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:39 +0000
Subject: [PATCH 86/86] fix: styles whose order is the number of steps cannot
 generate

---
 gsapi/gsstyles.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gsapi/gsstyles.py b/gsapi/gsstyles.py
index 820e62d..644cb0b 100644
--- a/gsapi/gsstyles.py
+++ b/gsapi/gsstyles.py
@@ -409,7 +409,7 @@ class PatternMarkov(object):
 
             return list(d.keys())[chosenIdx]
 
-        startHypothesis = random.choice(list(self.transitionTable[self.order].keys()))
+        startHypothesis = random.choice(list(self.transitionTable[self.order % self.numSteps].keys()))
 
         events = list(startHypothesis)
         i = self.order
-- 
2.43.0

