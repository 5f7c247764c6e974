From 8ff32777e03200c4a8ab913abdc9f96af304f70c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:58 +0000
Subject: [PATCH 01/39] fix: deliver each message of a MIDI source to the
 application as well as to external targets

When a device was the source of an external routing and of a routing to the application
(e.g. example 'Through USB DIN bidirectional'), every poll read two messages: the first one
was only passed through, the second one only reached the application.
---
 content/lib/pyswitch/controller/midi.py | 31 +++++++++++++++++++++++--
 1 file changed, 29 insertions(+), 2 deletions(-)

diff --git a/content/lib/pyswitch/controller/midi.py b/content/lib/pyswitch/controller/midi.py
index 9a36f32..03b4e26 100755
--- a/content/lib/pyswitch/controller/midi.py
+++ b/content/lib/pyswitch/controller/midi.py
@@ -61,6 +61,15 @@ class MidiController:
         self.__routings_to_appl = [x for x in routings if x.target == MidiRouting.APPLICATION]
         self.__routings_external = [x for x in routings if x.source != MidiRouting.APPLICATION and x.target != MidiRouting.APPLICATION]
 
+        # Sources which are routed to external targets as well as to the application. Each of their messages is read 
+        # once (by the external routings) and kept here until the application has taken it.
+        self.__shared_sources = []
+        for r in self.__routings_to_appl:
+            if not r.source in self.__shared_sources and any([x.source == r.source for x in self.__routings_external]):
+                self.__shared_sources.append(r.source)
+
+        self.__pending = [None for s in self.__shared_sources]
+
     def send(self, midi_message):
         # Send to all routings which have APPLICATION as source
         for r in self.__routings_from_appl:    
@@ -72,7 +81,13 @@ class MidiController:
 
         # Process routings targeting APPLICATION
         for r in self.__routings_to_appl:
-            msg = r.source.receive()
+            if r.source in self.__shared_sources:
+                # Already read by the external routings
+                index = self.__shared_sources.index(r.source)
+                msg = self.__pending[index]
+                self.__pending[index] = None
+            else:
+                msg = r.source.receive()
 
             if msg:
                 # Return first message for APPLICATION in the queue (next ticks will deliver the next messages)
@@ -93,7 +108,19 @@ class MidiController:
                 continue
 
             sources.append(r.source)
-            results.append(r.source.receive())
+
+            if r.source in self.__shared_sources:
+                index = self.__shared_sources.index(r.source)
+
+                if self.__pending[index]:
+                    # The application has not taken the last message yet
+                    results.append(None)
+                    continue
+
+                self.__pending[index] = r.source.receive()
+                results.append(self.__pending[index])
+            else:
+                results.append(r.source.receive())
             
         # Distribute messages
         for r in routings:
-- 
2.43.0


From 094e708451c8b98e18b349a93095972212756966 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:30 +0000
Subject: [PATCH 02/39] fix: clear the hold state of a switch when the press
 ends, so that it cannot trigger or swallow actions of the next press

---
 content/lib/pyswitch/controller/inputs.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/content/lib/pyswitch/controller/inputs.py b/content/lib/pyswitch/controller/inputs.py
index 60ae017..5a08e5a 100755
--- a/content/lib/pyswitch/controller/inputs.py
+++ b/content/lib/pyswitch/controller/inputs.py
@@ -74,18 +74,19 @@ class SwitchController:
             if self.__pushed_state:
                 self.__pushed_state = False
 
+                # The press is over, so is any hold state belonging to it
+                def end_hold():
+                    self.__hold_active = False
+                    self.__hold_was_active = False
+
                 # Process all release actions assigned to the switch 
                 def release():
                     if self.__actions_hold:    
                         if not self.__hold_active:
                             return
                                                 
-                        if self.__check_hold():
-                            return
-
-                        if self.__hold_was_active:
-                            self.__hold_active = False
-                            self.__hold_was_active = False
+                        if self.__check_hold() or self.__hold_was_active:
+                            end_hold()
                             return
 
                     for action in self.__actions:
@@ -97,12 +98,13 @@ class SwitchController:
 
                         action.release()
 
-                    self.__hold_active = False
-                    self.__hold_was_active = False
+                    end_hold()
                     
                 if self.override_action:
                     if self.override_action.release():
                         release()
+                    else:
+                        end_hold()
                 else:
                     release()
 
-- 
2.43.0


From ff876c34a89edccba9797bd40efb83163d98171f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:32 +0000
Subject: [PATCH 03/39] fix: do not release actions of a switch when the push
 has been consumed by an override action

---
 content/lib/pyswitch/controller/inputs.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/content/lib/pyswitch/controller/inputs.py b/content/lib/pyswitch/controller/inputs.py
index 5a08e5a..784019c 100755
--- a/content/lib/pyswitch/controller/inputs.py
+++ b/content/lib/pyswitch/controller/inputs.py
@@ -34,6 +34,7 @@ class SwitchController:
 
         self.__appl = appl
         self.__pushed_state = False
+        self.__push_consumed = False    # The current push has been consumed by the override action
 
         self.__colors = [(0, 0, 0) for i in range(len(self.pixels))]
         self.__brightnesses = array('f', (0 for i in range(len(self.pixels))))
@@ -105,7 +106,7 @@ class SwitchController:
                         release()
                     else:
                         end_hold()
-                else:
+                elif not self.__push_consumed:
                     release()
 
             return
@@ -118,9 +119,11 @@ class SwitchController:
         
         # Mark as pushed (prevents redundant messages in the following ticks, when the switch can still be down)
         self.__pushed_state = True
+        self.__push_consumed = False
 
         if self.override_action:
             if not self.override_action.push():
+                self.__push_consumed = True
                 return
 
         # Process all push actions assigned to the switch     
-- 
2.43.0


From 4eab809df716b5099ed543e4e0c093e0ffecb8c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:21 +0000
Subject: [PATCH 04/39] fix: notify all listeners of a mapping which depends on
 another one, not only the first

---
 content/lib/pyswitch/controller/client.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/content/lib/pyswitch/controller/client.py b/content/lib/pyswitch/controller/client.py
index 7db96cc..9dcab22 100755
--- a/content/lib/pyswitch/controller/client.py
+++ b/content/lib/pyswitch/controller/client.py
@@ -237,17 +237,23 @@ class Client: #(ClientRequestListener):
 
     # Listener for dependency mappings
     class _DependencyListener:
-        def __init__(self, client, orig_mapping, listener = None):
+        def __init__(self, client, orig_mapping):
             self.__client = client
             self.__orig_mapping = orig_mapping
             self.__last_value = None
-            self.__listener = listener
+            self.__listeners = []
+
+        # Adds a listener for the original mapping
+        def add_listener(self, listener):
+            if listener not in self.__listeners:
+                self.__listeners.append(listener)
 
         def parameter_changed(self, mapping):
             if mapping.value != self.__last_value:
                 self.__last_value = mapping.value
 
-                self.__client._register_mapping(self.__orig_mapping, self.__listener, True)           
+                for listener in self.__listeners:
+                    self.__client._register_mapping(self.__orig_mapping, listener, True)           
         
         def request_terminated(self, mapping):
             pass
@@ -317,7 +323,9 @@ class Client: #(ClientRequestListener):
         
         if mapping.depends:
             if not mapping in self.__dependencies:
-                self.__dependencies[mapping] = self._DependencyListener(self, mapping, listener)
+                self.__dependencies[mapping] = self._DependencyListener(self, mapping)
+
+            self.__dependencies[mapping].add_listener(listener)
 
             # Register the dependency rather than the mapping itself
             self._register_mapping(mapping.depends, self.__dependencies[mapping], True)
-- 
2.43.0


From de18c8878b44b8c15cd3b0a488786cf3dde4c393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:51 +0000
Subject: [PATCH 05/39] fix: let listeners start requests while answers are
 being distributed

---
 content/lib/pyswitch/controller/client.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/content/lib/pyswitch/controller/client.py b/content/lib/pyswitch/controller/client.py
index 9dcab22..ea184f0 100755
--- a/content/lib/pyswitch/controller/client.py
+++ b/content/lib/pyswitch/controller/client.py
@@ -382,7 +382,7 @@ class Client: #(ClientRequestListener):
         do_cleanup = False
 
         parsed = False
-        for request in self.__requests:
+        for request in list(self.__requests):        # Listeners can add new requests, which do not wait for this message
             if request.parse(midi_message):
                 parsed = True
 
@@ -404,7 +404,7 @@ class Client: #(ClientRequestListener):
     #@RuntimeStatistics.measure
     def get_matching_request(self, mapping):
         for request in self.__requests:
-            if request.mapping == mapping:
+            if request.mapping == mapping and not request.finished:
                 return request
             
         return None
-- 
2.43.0


From d806e5dda67fe050a5e49c72b6e6d91aad705403 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:15 +0000
Subject: [PATCH 06/39] fix: setting a bidirectional parameter nobody listens
 to does not crash

---
 content/lib/pyswitch/controller/client.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/content/lib/pyswitch/controller/client.py b/content/lib/pyswitch/controller/client.py
index ea184f0..44b6bf9 100755
--- a/content/lib/pyswitch/controller/client.py
+++ b/content/lib/pyswitch/controller/client.py
@@ -575,12 +575,12 @@ class BidirectionalClient(Client, Updateable):
         # Notify listeners of the mapping with the set value (we do not use echoing, so the actions
         # will not reflect the state change if we just do nothing)
         if self.protocol.feedback_value(mapping):
+            mapping.value = value
+
+            # There is no request if nobody listens to the mapping
             req = self.get_matching_request(mapping)
-            if not req:
-                raise Exception() #"No request for mapping: " + repr(mapping))
-            
-            req.mapping.value = value
-            req.notify_listeners()
+            if req:
+                req.notify_listeners()
 
     # Update the protocol state
     def update(self):
-- 
2.43.0


From d77423d648bcf655a98c2e8f21909b6c8e27193c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:39 +0000
Subject: [PATCH 07/39] fix: LEDs of all actions are restored after tuner mode

---
 content/lib/pyswitch/clients/kemper/__init__.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/content/lib/pyswitch/clients/kemper/__init__.py b/content/lib/pyswitch/clients/kemper/__init__.py
index 6737b30..0a1ffa6 100755
--- a/content/lib/pyswitch/clients/kemper/__init__.py
+++ b/content/lib/pyswitch/clients/kemper/__init__.py
@@ -235,6 +235,7 @@ class TunerDisplayCallback(Callback):
 
                     for action in input.actions:
                         action.reset()
+                        action.update_displays()
 
     def push(self):
         self.__pushed_before = True
-- 
2.43.0


From 639da95268920657faa63ca545fb27a93f14ccd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:43 +0000
Subject: [PATCH 08/39] fix: a press during an earlier tuner session does not
 end the next one

---
 content/lib/pyswitch/clients/kemper/__init__.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/content/lib/pyswitch/clients/kemper/__init__.py b/content/lib/pyswitch/clients/kemper/__init__.py
index 0a1ffa6..e24e137 100755
--- a/content/lib/pyswitch/clients/kemper/__init__.py
+++ b/content/lib/pyswitch/clients/kemper/__init__.py
@@ -229,6 +229,8 @@ class TunerDisplayCallback(Callback):
                         input.brightness = 0
         else:
             # Tuner off
+            self.__pushed_before = False
+
             for input in self.__appl.inputs:
                 if hasattr(input, "pixels"):
                     input.override_action = None
-- 
2.43.0


From b7716525dc09cc82b292c35a57c6b287edd69504 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:27 +0000
Subject: [PATCH 09/39] fix: all switch actions are displayed again after a
 page change

---
 content/lib/pyswitch/controller/controller.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/content/lib/pyswitch/controller/controller.py b/content/lib/pyswitch/controller/controller.py
index 57ab837..e77ab25 100755
--- a/content/lib/pyswitch/controller/controller.py
+++ b/content/lib/pyswitch/controller/controller.py
@@ -162,6 +162,9 @@ class Controller(Updater): #ClientRequestListener
             for action in input.actions:
                 action.reset()
 
+                if hasattr(input, "pixels"):
+                    action.update_displays()
+
     # Receive MIDI messages, and in between check for switch state changes
     def __receive_midi_messages(self):
         cnt = 0
-- 
2.43.0


From 8130ff379051ff404a9fa642569ecaa111a92588 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:30 +0000
Subject: [PATCH 10/39] fix: text color of fixed text is applied to the label

---
 .../clients/local/actions/fixed_text.py       | 105 +++++++++---------
 1 file changed, 53 insertions(+), 52 deletions(-)

diff --git a/content/lib/pyswitch/clients/local/actions/fixed_text.py b/content/lib/pyswitch/clients/local/actions/fixed_text.py
index 1ca50a8..9c445a1 100644
--- a/content/lib/pyswitch/clients/local/actions/fixed_text.py
+++ b/content/lib/pyswitch/clients/local/actions/fixed_text.py
@@ -1,52 +1,53 @@
-from ....controller.callbacks import Callback
-from ....controller.actions import Action
-
-# Simple action to display a fixed text in a display field. Ignores any switch pushes.
-def DISPLAY_FIXED_TEXT(text,                           # Text to be shown on the label
-					   display = None,                 # Display label to show the fixed text on 
-					   back_color = None,              # Background color of the label
-					   text_color = None,              # Text color (optional, if empty this will be chosen automatically based on the background color)
-					   id = None, 
-					   enable_callback = None
-	):
-	return Action({
-		"callback": _DisplayMessageCallback(
-			text = text, 
-			back_color = back_color,
-			text_color = text_color
-		),
-		"display": display,
-		"id": id,
-		"enableCallback": enable_callback
-	})
-
-
-class _DisplayMessageCallback(Callback):
-	def __init__(self, 
-			     text, 
-				 back_color = None,
-				 text_color = None
-	):
-		super().__init__()
-	
-		self.__text = text
-		self.__back_color = back_color
-		self.__text_color = text_color
-
-	def update_displays(self):
-		if not self.action or not self.action.label:
-			return
-		
-		self.action.label.text = self.__text
-		
-		if self.__back_color is not None:
-			self.action.label.back_color = self.__back_color
-		
-		if self.__text_color is not None:
-			self.action.label.color = self.__text_color
-
-	def push(self):
-		pass
-
-	def release(self):
-		pass
+from ....controller.callbacks import Callback
+from ....controller.actions import Action
+
+# Simple action to display a fixed text in a display field. Ignores any switch pushes.
+def DISPLAY_FIXED_TEXT(text,                           # Text to be shown on the label
+					   display = None,                 # Display label to show the fixed text on 
+					   back_color = None,              # Background color of the label
+					   text_color = None,              # Text color (optional, if empty this will be chosen automatically based on the background color)
+					   id = None, 
+					   enable_callback = None
+	):
+	return Action({
+		"callback": _DisplayMessageCallback(
+			text = text, 
+			back_color = back_color,
+			text_color = text_color
+		),
+		"display": display,
+		"id": id,
+		"enableCallback": enable_callback
+	})
+
+
+class _DisplayMessageCallback(Callback):
+	def __init__(self, 
+			     text, 
+				 back_color = None,
+				 text_color = None
+	):
+		super().__init__()
+	
+		self.__text = text
+		self.__back_color = back_color
+		self.__text_color = text_color
+
+	def update_displays(self):
+		if not self.action or not self.action.label:
+			return
+		
+		self.action.label.text = self.__text
+		
+		if self.__back_color is not None:
+			self.action.label.back_color = self.__back_color
+		
+		if self.__text_color is not None:
+			self.action.label.color = self.__text_color
+			self.action.label.text_color = self.__text_color
+
+	def push(self):
+		pass
+
+	def release(self):
+		pass
-- 
2.43.0


From 9931f08acf384406ed33450873217aab04798224 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:34 +0000
Subject: [PATCH 11/39] fix: effect state is evaluated again when the effect
 type changes

---
 content/lib/pyswitch/controller/callbacks/effect_enable.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/content/lib/pyswitch/controller/callbacks/effect_enable.py b/content/lib/pyswitch/controller/callbacks/effect_enable.py
index 2eba1e8..c693cbe 100644
--- a/content/lib/pyswitch/controller/callbacks/effect_enable.py
+++ b/content/lib/pyswitch/controller/callbacks/effect_enable.py
@@ -44,12 +44,19 @@ class EffectEnableCallback(BinaryParameterCallback):
 
         self.__current_kpp_type = self.mapping_fxtype.value
 
+        # Evaluate the state again for the new type
+        super().reset()
+
         # Effect category text
         if self.action.label:
             self.action.label.text = self.get_effect_category_text(self.__effect_category, self.mapping_fxtype.value)
 
         super().update_displays()
 
+    # Empty slots are never enabled
+    def evaluate_value(self, value):
+        super().evaluate_value(None if self.__effect_category == self.CATEGORY_NONE else value)
+
     # Must return the effect category for a mapping value
     def get_effect_category(self, kpp_effect_type):
         pass                                           # pragma: no cover
-- 
2.43.0


From 141b1ae9c1ba51b971cd4ce055b93eac3eb163df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:56 +0000
Subject: [PATCH 12/39] fix: encoder steps at scaled position -1 are not
 swallowed

---
 content/lib/pyswitch/controller/actions/EncoderAction.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/content/lib/pyswitch/controller/actions/EncoderAction.py b/content/lib/pyswitch/controller/actions/EncoderAction.py
index f80231b..65211c9 100755
--- a/content/lib/pyswitch/controller/actions/EncoderAction.py
+++ b/content/lib/pyswitch/controller/actions/EncoderAction.py
@@ -47,7 +47,7 @@ class EncoderAction(Updateable):
         self.__max_value = max_value
         self.__step_width = step_width
 
-        self.__last_pos = -1
+        self.__last_pos = None
         self._last_value = -1
         self.__convert_value = convert_value
 
@@ -114,7 +114,7 @@ class EncoderAction(Updateable):
         position = int(position * self.__step_width)
 
         # Initialize
-        if self.__last_pos == -1:
+        if self.__last_pos is None:
             self.__last_pos = position
 
         # Reset preview if the reset mapping had a value change
-- 
2.43.0


From 537b67f518072d1641e00212c910e5a9b3a61f9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:02 +0000
Subject: [PATCH 13/39] fix: bank select encoder does not crash before the rig
 ID is known

---
 .../lib/pyswitch/clients/kemper/actions/bank_select_encoder.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/content/lib/pyswitch/clients/kemper/actions/bank_select_encoder.py b/content/lib/pyswitch/clients/kemper/actions/bank_select_encoder.py
index 92c2daf..65dcabc 100644
--- a/content/lib/pyswitch/clients/kemper/actions/bank_select_encoder.py
+++ b/content/lib/pyswitch/clients/kemper/actions/bank_select_encoder.py
@@ -62,6 +62,9 @@ class _BankSelectEncoderAction(EncoderAction):
         self._appl.shared["preselectedBank"] = self._last_value
 
     def _get_value(self):
+        if self._mapping.value == None:
+            return None
+        
         return int(self._mapping.value / NUM_RIGS_PER_BANK)
 
     def _set_value(self, value):
-- 
2.43.0


From 1bebb26987c599cf80c5db383dc51bee2ffdc121 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:07 +0000
Subject: [PATCH 14/39] fix: encoder buttons can accept one encoder and cancel
 another one

---
 .../pyswitch/clients/local/actions/encoder_button.py   | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/content/lib/pyswitch/clients/local/actions/encoder_button.py b/content/lib/pyswitch/clients/local/actions/encoder_button.py
index 29cf1ca..c422e8d 100755
--- a/content/lib/pyswitch/clients/local/actions/encoder_button.py
+++ b/content/lib/pyswitch/clients/local/actions/encoder_button.py
@@ -21,17 +21,15 @@ class _EncoderButtonCallback(Callback):
     def __init__(self):
         super().__init__()
         
-        self.__encoders = []
-        self.__cancel_mode = False
+        self.__encoders = []   # Tuples of encoder and cancel mode
 
     # cancel_mode tells us what to trigger later on, accept() or cancel().
     def register_encoder(self, encoder, cancel_mode):
-        self.__encoders.append(encoder)
-        self.__cancel_mode = cancel_mode
+        self.__encoders.append((encoder, cancel_mode))
 
     def push(self):
-        for encoder in self.__encoders:
-            if self.__cancel_mode:
+        for encoder, cancel_mode in self.__encoders:
+            if cancel_mode:
                 encoder.cancel()
             else:
                 encoder.accept()
-- 
2.43.0


From 99b4123821b3b5282656ee24284f823313a0593b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:11 +0000
Subject: [PATCH 15/39] fix: auto calibration without minimum window does not
 crash

---
 content/lib/pyswitch/controller/actions/AnalogAction.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/content/lib/pyswitch/controller/actions/AnalogAction.py b/content/lib/pyswitch/controller/actions/AnalogAction.py
index eba6f24..fe3e78e 100755
--- a/content/lib/pyswitch/controller/actions/AnalogAction.py
+++ b/content/lib/pyswitch/controller/actions/AnalogAction.py
@@ -95,7 +95,7 @@ class AnalogAction(Updateable):
                         self.__cal_factor = 65536 / (self.__cal_max - self.__cal_min)
 
                 # If the calibration window is too small, we dont send anything
-                if (self.__cal_max - self.__cal_min) < self.__cal_min_window:
+                if self.__cal_max == self.__cal_min or (self.__cal_max - self.__cal_min) < self.__cal_min_window:
                     return
                 
                 # Scale the input value up
-- 
2.43.0


From 143afc15174d088b57e9754d2fbef4efa549c2eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:47 +0000
Subject: [PATCH 16/39] fix: encoders always start from the current value of
 the parameter

---
 .../pyswitch/controller/actions/EncoderAction.py  | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/content/lib/pyswitch/controller/actions/EncoderAction.py b/content/lib/pyswitch/controller/actions/EncoderAction.py
index 65211c9..265ec50 100755
--- a/content/lib/pyswitch/controller/actions/EncoderAction.py
+++ b/content/lib/pyswitch/controller/actions/EncoderAction.py
@@ -130,8 +130,14 @@ class EncoderAction(Updateable):
             return
 
         # No value yet
-        if self._get_value() == None:
+        current = self._get_value()
+        if current == None:
             self._set_value(0)
+            current = -1 if self.__preselect else 0
+
+        # A preselection in progress is continued, everything else starts from the current value
+        if self.__preselect_active:
+            current = self._last_value
             
         # Get the delta value
         add_value = position - self.__last_pos
@@ -140,10 +146,7 @@ class EncoderAction(Updateable):
         self.__last_pos = position
 
         # Get value to set
-        if not self.__preselect:
-            v = self._get_value() + add_value
-        else:
-            v = self._last_value + add_value
+        v = current + add_value
 
         if v < self.__min_value:
             v = self.__min_value
@@ -151,7 +154,7 @@ class EncoderAction(Updateable):
             v = self.__max_value
 
         # If changed, set or preview the value
-        if self._last_value != v:
+        if current != v:
             self._last_value = v
             
             if not self.__preselect:
-- 
2.43.0


From 5d72079128a0fd2160efd34d264c7d98de7f4a1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:09 +0000
Subject: [PATCH 17/39] fix: value previews on labels without callback restore
 the text of the label

---
 content/lib/pyswitch/controller/preview.py | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/content/lib/pyswitch/controller/preview.py b/content/lib/pyswitch/controller/preview.py
index 465cda6..0d96d89 100644
--- a/content/lib/pyswitch/controller/preview.py
+++ b/content/lib/pyswitch/controller/preview.py
@@ -32,6 +32,7 @@ class ValuePreview:
 
         self.__blink_state = False
         self.__orig_color = label.text_color
+        self.__orig_text = label.text
 
         self.__clients = None # List of clients to be canceled when another client enters. Each one must have a cancel() method.
 
@@ -54,6 +55,9 @@ class ValuePreview:
 
         self.__stay = stay
 
+        if not self.label.override_text:
+            self.__orig_text = self.label.text
+
         self.label.override_text = text
         self.label.update_label()
 
@@ -124,19 +128,28 @@ class ValuePreview:
             immediately = True
 
         if immediately:
-            self.label.override_text = None
-            self.label.update_label()
+            self.__release_label()
             self.__period = None
         else:
             self.__period.reset()
         
+    # Give the label back to its normal content
+    def __release_label(self):
+        text = self.label.override_text
+        self.label.override_text = None
+
+        if text and not self.label.callback and self.label.text == str(text):
+            # Nobody else will update the label, so we restore it
+            self.label.text = self.__orig_text
+
+        self.label.update_label()
+
     # Must be called regularly
     def update(self):
         if self.label.override_text:
             # Free preview display after a period
             if not self.__stay and self.__period and self.__period.exceeded:
-                self.label.override_text = None
-                self.label.update_label()
+                self.__release_label()
 
             # Blink
             if self.__blink_period and self.__blink_period.exceeded:
-- 
2.43.0


From 7d329fb917ea2ce72f398145e0c46078313d3793 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:17 +0000
Subject: [PATCH 18/39] fix: cancelling an encoder does not remove the preview
 of another one

---
 content/lib/pyswitch/controller/actions/EncoderAction.py | 2 +-
 content/lib/pyswitch/controller/preview.py               | 8 +++++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/content/lib/pyswitch/controller/actions/EncoderAction.py b/content/lib/pyswitch/controller/actions/EncoderAction.py
index 265ec50..a3ff385 100755
--- a/content/lib/pyswitch/controller/actions/EncoderAction.py
+++ b/content/lib/pyswitch/controller/actions/EncoderAction.py
@@ -205,4 +205,4 @@ class EncoderAction(Updateable):
         self._last_value = self._get_value()
 
         if self.__preview:
-            self.__preview.reset(immediately = immediately)
+            self.__preview.reset(immediately = immediately, client = self)
diff --git a/content/lib/pyswitch/controller/preview.py b/content/lib/pyswitch/controller/preview.py
index 0d96d89..c6ca3f6 100644
--- a/content/lib/pyswitch/controller/preview.py
+++ b/content/lib/pyswitch/controller/preview.py
@@ -34,6 +34,7 @@ class ValuePreview:
         self.__orig_color = label.text_color
         self.__orig_text = label.text
 
+        self.__client = None  # Client of the current preview
         self.__clients = None # List of clients to be canceled when another client enters. Each one must have a cancel() method.
 
     # Sets a preview (override) text on the label.
@@ -53,6 +54,7 @@ class ValuePreview:
 
                 c.cancel()
 
+        self.__client = client
         self.__stay = stay
 
         if not self.label.override_text:
@@ -118,7 +120,11 @@ class ValuePreview:
         )        
 
     # Reset the display label to its default behaviour, either immediately or after the timeout period.
-    def reset(self, immediately = False):
+    # If a client is passed, nothing is done if somebody else has entered preview in the meantime.
+    def reset(self, immediately = False, client = None):
+        if client and client != self.__client:
+            return
+
         self.__blink_period = None
         self.__stay = False
 
-- 
2.43.0


From e176884bca566224666ad5f59195f15cb6f8b668 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:34 +0000
Subject: [PATCH 19/39] fix: BANK_UP / BANK_DOWN: dim_factor "on" did not work

---
 content/lib/pyswitch/clients/kemper/actions/bank_up_down.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/content/lib/pyswitch/clients/kemper/actions/bank_up_down.py b/content/lib/pyswitch/clients/kemper/actions/bank_up_down.py
index 3f89a38..d890e40 100755
--- a/content/lib/pyswitch/clients/kemper/actions/bank_up_down.py
+++ b/content/lib/pyswitch/clients/kemper/actions/bank_up_down.py
@@ -121,7 +121,7 @@ class KemperBankChangeCallback(Callback):
 
         if self.__dim_factor_p == "off":
             self.__dim_factor = get_option(appl.config, "displayDimFactorOff", 0.2)
-        elif self.__display_mode == "on":
+        elif self.__dim_factor_p == "on":
             self.__dim_factor = get_option(appl.config, "displayDimFactorOn", 1)
         else:
             self.__dim_factor = self.__dim_factor_p
-- 
2.43.0


From c9affdd22fc12a46d485fe0d9431b8d52af4eb87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:14 +0000
Subject: [PATCH 20/39] fix: RIG_UP / RIG_DOWN ended up in the preselected bank
 and did not end the preselection

---
 content/lib/pyswitch/clients/kemper/actions/rig_up_down.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/content/lib/pyswitch/clients/kemper/actions/rig_up_down.py b/content/lib/pyswitch/clients/kemper/actions/rig_up_down.py
index aa915f2..b6d1b69 100755
--- a/content/lib/pyswitch/clients/kemper/actions/rig_up_down.py
+++ b/content/lib/pyswitch/clients/kemper/actions/rig_up_down.py
@@ -122,7 +122,8 @@ class _KemperRigChangeCallback(Callback):
         next_bank = int(next_rig_id / NUM_RIGS_PER_BANK)
         next_rig = next_rig_id % NUM_RIGS_PER_BANK
         
-        if next_bank != curr_bank:
+        # An open preselection has to be overruled, too
+        if next_bank != curr_bank or "preselectedBank" in self.__appl.shared:
             self.__appl.client.set(MAPPING_BANK_SELECT(), next_bank)
             
         self.__sent_rig_mapping = MAPPING_RIG_SELECT(next_rig)
@@ -130,6 +131,10 @@ class _KemperRigChangeCallback(Callback):
         
         self.__appl.shared["morphStateOverride"] = 0
 
+        # The rig has been selected: End preselection
+        if "preselectedBank" in self.__appl.shared:
+            del self.__appl.shared["preselectedBank"]
+
     def release(self):
         # Send release (0) value if necessary
         if not self.__sent_rig_mapping:
-- 
2.43.0


From 7f47b8e5e0238c8b80ebc918c05a6f8fcb5c7b26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:17 +0000
Subject: [PATCH 21/39] fix: RIG_SELECT: Auto off rig/bank was not remembered
 together

---
 content/lib/pyswitch/clients/kemper/actions/rig_select.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/content/lib/pyswitch/clients/kemper/actions/rig_select.py b/content/lib/pyswitch/clients/kemper/actions/rig_select.py
index 47c9984..e36c2a9 100755
--- a/content/lib/pyswitch/clients/kemper/actions/rig_select.py
+++ b/content/lib/pyswitch/clients/kemper/actions/rig_select.py
@@ -236,10 +236,10 @@ class _KemperRigSelectCallback(Callback):
             self.__current_value = self.__mapping.value
 
             # Auto rig off: If we are not on the "on" rig, set the current rig as "off" rig
-            if (not self.__auto_exclude_rigs or (curr_rig + 1) not in self.__auto_exclude_rigs) and self.__rig_off_auto and self.__rig != None and curr_rig != self.__rig - 1:
+            if (not self.__auto_exclude_rigs or (curr_rig + 1) not in self.__auto_exclude_rigs) and self.__rig_off_auto and self.__rig != None and not self.state:
                 self.__rig_off = curr_rig + 1
                 
-            if self.__bank_off_auto and curr_bank != self.__bank - 1:
+            if self.__bank_off_auto and not self.state:
                 self.__bank_off = curr_bank + 1
 
         is_current = self.state
-- 
2.43.0


From d4aa496083eddc1a6ac4f980ec320de85523c124 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:20 +0000
Subject: [PATCH 22/39] fix: ENCODER_BANK_SELECT lost the current rig

---
 .../pyswitch/clients/kemper/actions/bank_select_encoder.py   | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/content/lib/pyswitch/clients/kemper/actions/bank_select_encoder.py b/content/lib/pyswitch/clients/kemper/actions/bank_select_encoder.py
index 65dcabc..97494a9 100644
--- a/content/lib/pyswitch/clients/kemper/actions/bank_select_encoder.py
+++ b/content/lib/pyswitch/clients/kemper/actions/bank_select_encoder.py
@@ -68,7 +68,10 @@ class _BankSelectEncoderAction(EncoderAction):
         return int(self._mapping.value / NUM_RIGS_PER_BANK)
 
     def _set_value(self, value):
-        self._mapping.value = value * NUM_RIGS_PER_BANK
+        # Keep the current rig
+        rig = self._mapping.value % NUM_RIGS_PER_BANK if self._mapping.value != None else 0
+
+        self._mapping.value = value * NUM_RIGS_PER_BANK + rig
 
 
 def _convert_value(value):
-- 
2.43.0


From 2cb45d9d0e56c4fa6f68db84020fa6f525e99ede Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:37 +0000
Subject: [PATCH 23/39] fix: Bank preselection: refresh all displays when it
 ends, and do not touch displays of disabled actions

---
 .../lib/pyswitch/clients/kemper/__init__.py   | 18 ++++++++++--------
 .../clients/kemper/actions/bank_select.py     |  8 ++++++--
 .../clients/kemper/actions/bank_up_down.py    | 19 +++++++++++++++----
 .../clients/kemper/actions/rig_select.py      |  6 +++++-
 4 files changed, 36 insertions(+), 15 deletions(-)

diff --git a/content/lib/pyswitch/clients/kemper/__init__.py b/content/lib/pyswitch/clients/kemper/__init__.py
index e24e137..8f80c6d 100755
--- a/content/lib/pyswitch/clients/kemper/__init__.py
+++ b/content/lib/pyswitch/clients/kemper/__init__.py
@@ -96,15 +96,17 @@ class KemperRigNameCallback(Callback):
         super().update()
 
         if "preselectedBank" in self.__appl.shared:
-            if self.__preselect_initialized != self.__appl.shared["preselectedBank"]:
-                self.__preselect_initialized = self.__appl.shared["preselectedBank"]
-
-                if self.__show_name:
-                    self.parameter_changed(self.__mapping_name)
-                elif self.__show_rig_id:
-                    self.parameter_changed(self.__mapping_id)
+            preselected = self.__appl.shared["preselectedBank"]
         else:
-            self.__preselect_initialized = None
+            preselected = None
+
+        if self.__preselect_initialized != preselected:
+            self.__preselect_initialized = preselected
+
+            if self.__show_name:
+                self.parameter_changed(self.__mapping_name)
+            elif self.__show_rig_id:
+                self.parameter_changed(self.__mapping_id)
 
     def update_label(self, label):
         if "preselectedBank" in self.__appl.shared:
diff --git a/content/lib/pyswitch/clients/kemper/actions/bank_select.py b/content/lib/pyswitch/clients/kemper/actions/bank_select.py
index c0469df..f529425 100755
--- a/content/lib/pyswitch/clients/kemper/actions/bank_select.py
+++ b/content/lib/pyswitch/clients/kemper/actions/bank_select.py
@@ -106,9 +106,13 @@ class KemperBankSelectCallback(Callback):
     def update(self):
         Callback.update(self)
 
-        if self.__preselect and "preselectedBank" in self.__appl.shared and self.__appl.shared["preselectedBank"] == self.__bank - 1 and self.__preselect_blink_period.exceeded:
+        if not self.__preselect or not "preselectCallback" in self.__appl.shared:
+            return
+
+        if "preselectedBank" in self.__appl.shared and self.__appl.shared["preselectedBank"] == self.__bank - 1 and self.__appl.shared["preselectCallback"] == self and self.__preselect_blink_period.exceeded:
             self.__appl.shared["preselectBlinkState"] = not self.__appl.shared["preselectBlinkState"]
-            self.update_displays()
+
+        self.action.update_displays()
 
     def push(self):
         if self.__mapping.value == None:
diff --git a/content/lib/pyswitch/clients/kemper/actions/bank_up_down.py b/content/lib/pyswitch/clients/kemper/actions/bank_up_down.py
index d890e40..e306daa 100755
--- a/content/lib/pyswitch/clients/kemper/actions/bank_up_down.py
+++ b/content/lib/pyswitch/clients/kemper/actions/bank_up_down.py
@@ -114,6 +114,7 @@ class KemperBankChangeCallback(Callback):
 
         if preselect:
             self.__preselect_blink_period = PeriodCounter(preselect_blink_interval)
+            self.__preselect_shown = False
 
     def init(self, appl, listener = None):
         super().init(appl, listener)
@@ -162,10 +163,20 @@ class KemperBankChangeCallback(Callback):
     def update(self):
         Callback.update(self)
 
-        if self.__preselect and "preselectedBank" in self.__appl.shared and self.__appl.shared["preselectCallback"] == self and self.__preselect_blink_period.exceeded:
-            self.__appl.shared["preselectBlinkState"] = not self.__appl.shared["preselectBlinkState"]
-            
-            self.update_displays()
+        if not self.__preselect:
+            return
+        
+        if "preselectedBank" in self.__appl.shared and self.__appl.shared["preselectCallback"] == self:
+            self.__preselect_shown = True
+
+            if self.__preselect_blink_period.exceeded:
+                self.__appl.shared["preselectBlinkState"] = not self.__appl.shared["preselectBlinkState"]
+                self.action.update_displays()
+
+        elif self.__preselect_shown:
+            # Preselection has ended
+            self.__preselect_shown = False
+            self.action.update_displays()
 
     def reset(self):
         # TODO this should not be necessary: Normally this just resets the memory, which this class doesnt have.
diff --git a/content/lib/pyswitch/clients/kemper/actions/rig_select.py b/content/lib/pyswitch/clients/kemper/actions/rig_select.py
index e36c2a9..93a4180 100755
--- a/content/lib/pyswitch/clients/kemper/actions/rig_select.py
+++ b/content/lib/pyswitch/clients/kemper/actions/rig_select.py
@@ -215,8 +215,12 @@ class _KemperRigSelectCallback(Callback):
     
             if self.__last_blink_state != bs:
                 self.__last_blink_state = bs
-                self.update_displays()
+                self.action.update_displays()
 
+        elif self.__last_blink_state != None:
+            # Preselection has ended
+            self.__last_blink_state = None
+            self.action.update_displays()
 
     def update_displays(self):
         if self.__mapping.value == None:
-- 
2.43.0


From f45aa8555206b16db66210ea4fb7e8ef0190b56b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:52:49 +0000
Subject: [PATCH 24/39] fix: SHOW_TEMPO: show the current tempo again when the
 action is enabled again

---
 content/lib/pyswitch/clients/kemper/actions/tempo.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/content/lib/pyswitch/clients/kemper/actions/tempo.py b/content/lib/pyswitch/clients/kemper/actions/tempo.py
index 1cb6e39..9af728e 100755
--- a/content/lib/pyswitch/clients/kemper/actions/tempo.py
+++ b/content/lib/pyswitch/clients/kemper/actions/tempo.py
@@ -105,6 +105,11 @@ class _KemperShowTempoCallback(Callback):
     def release(self):
         pass
 
+    # Reset state (triggers showing everything again)
+    def reset(self):
+        self.__current_value = None
+        self.__last_bpm = None
+
     def update(self):
         super().update()
 
-- 
2.43.0


From 6503c6e24a4d70e3e30db3c9ef902dd5ac6d449d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:53:11 +0000
Subject: [PATCH 25/39] fix: PARAMETER_UP_DOWN: do not repeat endlessly if the
 release went elsewhere

---
 content/lib/pyswitch/clients/local/actions/param_change.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/content/lib/pyswitch/clients/local/actions/param_change.py b/content/lib/pyswitch/clients/local/actions/param_change.py
index 2654a69..8fe05e6 100755
--- a/content/lib/pyswitch/clients/local/actions/param_change.py
+++ b/content/lib/pyswitch/clients/local/actions/param_change.py
@@ -100,6 +100,10 @@ class _ParameterChangeCallback(Callback):
         if self.__preview:
             self.__preview.update()
 
+        # The release can get lost for this action (page changed, tuner mode) while the switch is held down
+        if not self.action.enabled or not getattr(self.action.switch, "pushed", True):
+            self.__pushed = False
+
         if self.__pushed and self.__repeat_period and self.__repeat_period.exceeded:
             self.push()
 
-- 
2.43.0


From d715e461dd53908bfa6041d27493f00f40d89223 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:59:48 +0000
Subject: [PATCH 26/39] fix: PARAMETER_UP_DOWN: invalid LED and label colors
 when the value is above the maximum

---
 content/lib/pyswitch/clients/local/actions/param_change.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/content/lib/pyswitch/clients/local/actions/param_change.py b/content/lib/pyswitch/clients/local/actions/param_change.py
index 8fe05e6..acfc599 100755
--- a/content/lib/pyswitch/clients/local/actions/param_change.py
+++ b/content/lib/pyswitch/clients/local/actions/param_change.py
@@ -142,7 +142,7 @@ class _ParameterChangeCallback(Callback):
         
         self.__last_value = self._mapping.value
         
-        dim_factor = (self._mapping.value / self._max_value) if self._mapping.value != None else 0
+        dim_factor = min(self._mapping.value / self._max_value, 1) if self._mapping.value != None else 0
         if self._offset < 0:
             dim_factor = 1 - dim_factor
 
-- 
2.43.0


From 5a054b5128d887eff4be9bb41059f1aa7a22c882 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:33:16 +0000
Subject: [PATCH 27/39] fix: Strobe tuner: LEDs stay dark when tuner mode is
 entered again

---
 content/lib/pyswitch/controller/strobe.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/content/lib/pyswitch/controller/strobe.py b/content/lib/pyswitch/controller/strobe.py
index 093250a..469942d 100755
--- a/content/lib/pyswitch/controller/strobe.py
+++ b/content/lib/pyswitch/controller/strobe.py
@@ -40,7 +40,7 @@ class StrobeController:
         
         # Bring the switches into the correct order for strobe
         self.__switches = [s for s in appl.inputs if hasattr(s, "pixels")]
-        self.__current_strobe_brightnesses = [0 for s in self.__switches]
+        self.__current_strobe_brightnesses = [None for s in self.__switches]
 
         # Period counter for saving LED updates (restricts the updates to a certain frame rate)
         period = int(1000 / self.__max_fps * len(self.__switches))
@@ -69,8 +69,12 @@ class StrobeController:
         if mapping == self.__mapping_state:
             if value == 1:
                 # Tuner on
-                self.__enabled = True
-                self.__period.reset()
+                if not self.__enabled:
+                    self.__enabled = True
+                    self.__period.reset()
+
+                # The LEDs have been used for something else in the meantime, so all have to be updated
+                self.__current_strobe_brightnesses = [None for s in self.__switches]
             else:
                 # Tuner off
                 self.__enabled = False
-- 
2.43.0


From a16c04031b1fc2ef7f6703463a23b1c6cb4652a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:33:20 +0000
Subject: [PATCH 28/39] fix: Strobe tuner: LEDs of unused switches stay lit
 after tuner mode

---
 content/lib/pyswitch/clients/kemper/__init__.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/content/lib/pyswitch/clients/kemper/__init__.py b/content/lib/pyswitch/clients/kemper/__init__.py
index 8f80c6d..dd47bbd 100755
--- a/content/lib/pyswitch/clients/kemper/__init__.py
+++ b/content/lib/pyswitch/clients/kemper/__init__.py
@@ -237,6 +237,10 @@ class TunerDisplayCallback(Callback):
                 if hasattr(input, "pixels"):
                     input.override_action = None
 
+                    if self.__strobe_controller:
+                        # Switches without actions shall not keep the last state of the strobe
+                        input.brightness = 0
+
                     for action in input.actions:
                         action.reset()
                         action.update_displays()
-- 
2.43.0


From d40b723180764f66392372db854c12a3578866eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:33:23 +0000
Subject: [PATCH 29/39] fix: Tuner display: Zoomed marker leaves its bounds and
 is off center

---
 content/lib/pyswitch/ui/elements.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/content/lib/pyswitch/ui/elements.py b/content/lib/pyswitch/ui/elements.py
index 08dfdc6..3d2ff9b 100755
--- a/content/lib/pyswitch/ui/elements.py
+++ b/content/lib/pyswitch/ui/elements.py
@@ -290,7 +290,7 @@ class TunerDisplay(DisplayElement):
         def set(self, value):
             value_scaled = value
             if self.__zoom != 1:
-                value_scaled = max(-8192, min(int((value - 8192) * self.__zoom), 8192)) + 8191
+                value_scaled = max(-8192, min(int((value - 8192) * self.__zoom), 8192)) + 8192
 
             self.__marker.x = int(self.bounds.x + (self.bounds.width - self.width) * value_scaled / 16384)
 
-- 
2.43.0


From e5041ca7b606fd6d50fa1fb381956de6feb79a13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:34:27 +0000
Subject: [PATCH 30/39] fix: Tuner display: Note not colored if the first
 deviance is exactly in tune

---
 content/lib/pyswitch/ui/elements.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/content/lib/pyswitch/ui/elements.py b/content/lib/pyswitch/ui/elements.py
index 3d2ff9b..6c5cd9b 100755
--- a/content/lib/pyswitch/ui/elements.py
+++ b/content/lib/pyswitch/ui/elements.py
@@ -368,7 +368,7 @@ class TunerDisplay(DisplayElement):
             self.add(self.deviance)
 
         self.__last_note = None
-        self.__last_deviance = 8192
+        self.__last_deviance = None
 
     # We need access to the client, so we store appl here
     def init(self, ui, appl):
@@ -386,7 +386,7 @@ class TunerDisplay(DisplayElement):
     # Reset the display
     def reset(self):
         self.__last_note = None
-        self.__last_deviance = 8192
+        self.__last_deviance = None
         
         if self.label_note:
             self.label_note.text = "-"
-- 
2.43.0


From 2a2a115c3938c1e29c9f2706c6b3696226155730 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:14:24 +0000
Subject: [PATCH 31/39] fix: Effect type 137 (Dual Chromatic) has been shown as
 empty slot

---
 content/lib/pyswitch/clients/kemper/actions/effect_state.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/content/lib/pyswitch/clients/kemper/actions/effect_state.py b/content/lib/pyswitch/clients/kemper/actions/effect_state.py
index 8052702..384f589 100755
--- a/content/lib/pyswitch/clients/kemper/actions/effect_state.py
+++ b/content/lib/pyswitch/clients/kemper/actions/effect_state.py
@@ -224,9 +224,9 @@ class KemperEffectEnableCallback(EffectEnableCallback):
         elif 129 <= kpp_effect_type <= 132:
             return self.CATEGORY_PITCH
 
-        # --- Dual / Pitch+Delay hybrids (MSB=1, decoded 138-140) ---
-        # 138=Dual Harmonic, 139=Dual Crystal, 140=Dual Loop Pitch
-        elif 138 <= kpp_effect_type <= 140:
+        # --- Dual / Pitch+Delay hybrids (MSB=1, decoded 137-140) ---
+        # 137=Dual Chromatic, 138=Dual Harmonic, 139=Dual Crystal, 140=Dual Loop Pitch
+        elif 137 <= kpp_effect_type <= 140:
             return self.CATEGORY_DUAL
 
         # --- Delay (MSB=1, decoded 145-166) ---
-- 
2.43.0


From 74d68a8f6bff31798a374f00c383337140a6a5e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:14:36 +0000
Subject: [PATCH 32/39] fix: Name of effect type 91 (Flanger Oneway) has been
 assigned to type 90

---
 .../clients/kemper/actions/effect_state_extended_names.py       | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/content/lib/pyswitch/clients/kemper/actions/effect_state_extended_names.py b/content/lib/pyswitch/clients/kemper/actions/effect_state_extended_names.py
index 357d1da..f31476f 100644
--- a/content/lib/pyswitch/clients/kemper/actions/effect_state_extended_names.py
+++ b/content/lib/pyswitch/clients/kemper/actions/effect_state_extended_names.py
@@ -78,7 +78,7 @@ _EFFECT_TYPE_NAMES = {
     82: "Vibe",
     83: "Ph 1way",
     89: "Flanger",
-    90: "Fl 1way",
+    91: "Fl 1way",
  
     97: "Graphic",
     98: "StudioEQ",
-- 
2.43.0


From f56a741486f3b3036191b94c63bbc4cff9e8fff8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:50:12 +0000
Subject: [PATCH 33/39] fix: value preview drops a text set on its label while
 a preview is running

---
 content/lib/pyswitch/controller/preview.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/content/lib/pyswitch/controller/preview.py b/content/lib/pyswitch/controller/preview.py
index c6ca3f6..cfb4a4c 100644
--- a/content/lib/pyswitch/controller/preview.py
+++ b/content/lib/pyswitch/controller/preview.py
@@ -57,7 +57,8 @@ class ValuePreview:
         self.__client = client
         self.__stay = stay
 
-        if not self.label.override_text:
+        # Keep also texts which have been set by others during a running preview
+        if not self.label.override_text or self.label.text != str(self.label.override_text):
             self.__orig_text = self.label.text
 
         self.label.override_text = text
-- 
2.43.0


From 7f2353dec26bcb352e06ea5420f1925c15108e2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:00:31 +0000
Subject: [PATCH 34/39] fix: pager LED is wrong after start when actions of
 pages share its switch, and when it is enabled again

---
 content/lib/pyswitch/clients/local/actions/pager.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/content/lib/pyswitch/clients/local/actions/pager.py b/content/lib/pyswitch/clients/local/actions/pager.py
index 5548c56..ed32e6e 100755
--- a/content/lib/pyswitch/clients/local/actions/pager.py
+++ b/content/lib/pyswitch/clients/local/actions/pager.py
@@ -99,6 +99,11 @@ class PagerAction(Callback, Action):
         self.current_page_index = 0
         self.current_page_id = self.pages[self.current_page_index]["id"] if len(self.pages) > 0 else None
 
+    # Called regularly: Also shows the pager again when it has been enabled
+    def update(self):
+        Callback.update(self)
+        Action.update(self)
+
     # Called when the switch is pushed down
     def push(self):
         if not len(self.pages):
-- 
2.43.0


From 21717b3e8af1b0b270acafb58e4d6bab5495b591 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:45:03 +0000
Subject: [PATCH 35/39] fix: assigned empty lists can be saved by the web
 editor

---
 web/htdocs/python/parser/misc/CodeGenerator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/web/htdocs/python/parser/misc/CodeGenerator.py b/web/htdocs/python/parser/misc/CodeGenerator.py
index cd737cd..f28aef7 100644
--- a/web/htdocs/python/parser/misc/CodeGenerator.py
+++ b/web/htdocs/python/parser/misc/CodeGenerator.py
@@ -29,7 +29,7 @@ class CodeGenerator:
             
             if "assign" in data and data["assign"]:
                 return self._resolve_assign(
-                    node = self._generate(data["value"], self.initial_level) if "value" in data and data["value"] else None, 
+                    node = self._generate(data["value"], self.initial_level) if "value" in data and data["value"] != None else None, 
                     data = data
                 )                
             
-- 
2.43.0


From 4530eaf5c3fbf01db3c8d4435927407eb2956304 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:45:03 +0000
Subject: [PATCH 36/39] fix: the web editor keeps unpacked arguments and
 elements, and keys other than double quoted strings

---
 .../python/parser/misc/CodeExtractor.py       | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/web/htdocs/python/parser/misc/CodeExtractor.py b/web/htdocs/python/parser/misc/CodeExtractor.py
index e88be3f..b4223c0 100644
--- a/web/htdocs/python/parser/misc/CodeExtractor.py
+++ b/web/htdocs/python/parser/misc/CodeExtractor.py
@@ -44,13 +44,13 @@ class CodeExtractor:
         if isinstance(node, libcst.Name):
             return self._parse_assigned(node)
         
-        elif isinstance(node, libcst.Call):
+        elif isinstance(node, libcst.Call) and not any(arg.star for arg in node.args):
             return self._parse_call(node)
         
-        elif isinstance(node, libcst.Dict):
+        elif isinstance(node, libcst.Dict) and all(self._get_key(element) != None for element in node.elements):
             return self._parse_dict(node)
         
-        elif isinstance(node, libcst.List):
+        elif isinstance(node, libcst.List) and not any(isinstance(element, libcst.StarredElement) for element in node.elements):
             return self._parse_list(node)
 
         # Simple statement
@@ -97,7 +97,7 @@ class CodeExtractor:
         }
 
         for dict_element in dict_node.elements:
-            key = dict_element.key.value.strip('\"')
+            key = self._get_key(dict_element)
             value = self._parse_node(dict_element.value)
             
             new_value["arguments"].append({
@@ -107,6 +107,17 @@ class CodeExtractor:
 
         return new_value
     
+    # Returns the key of a dict element if it is a string which can be expressed as argument name, or None
+    def _get_key(self, dict_element):
+        if not isinstance(dict_element, libcst.DictElement) or not isinstance(dict_element.key, libcst.SimpleString):
+            return None
+        
+        key = dict_element.key.evaluated_value
+        if not isinstance(key, str) or not key.isprintable() or '"' in key or "\\" in key:
+            return None
+        
+        return key
+        
     def _parse_list(self, list_node):
         new_value = []
 
-- 
2.43.0


From ea83c3f0a0f4e0359c444ea9757b53e597825b6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:45:03 +0000
Subject: [PATCH 37/39] fix: assignments to anything else than names do not
 crash the web editor

---
 web/htdocs/python/parser/misc/AddAssignmentTransformer.py     | 2 +-
 web/htdocs/python/parser/misc/AssignmentExtractor.py          | 3 +++
 web/htdocs/python/parser/misc/AssignmentNameExtractor.py      | 2 +-
 web/htdocs/python/parser/misc/CodeExtractor.py                | 2 +-
 web/htdocs/python/parser/misc/ReplaceAssignmentTransformer.py | 4 +++-
 5 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/web/htdocs/python/parser/misc/AddAssignmentTransformer.py b/web/htdocs/python/parser/misc/AddAssignmentTransformer.py
index e5cced1..8be9026 100644
--- a/web/htdocs/python/parser/misc/AddAssignmentTransformer.py
+++ b/web/htdocs/python/parser/misc/AddAssignmentTransformer.py
@@ -34,7 +34,7 @@ class AddAssignmentTransformer(TransformerWithStack):
             assign = updated_node.body[0]
             
             for target in assign.targets:
-                if target.target.value == self.insert_before_assign:                
+                if isinstance(target.target, libcst.Name) and target.target.value == self.insert_before_assign:                
                     return libcst.FlattenSentinel([self._generate_statement(), updated_node])
         else:
             if not self.cst:
diff --git a/web/htdocs/python/parser/misc/AssignmentExtractor.py b/web/htdocs/python/parser/misc/AssignmentExtractor.py
index d191771..61641c3 100644
--- a/web/htdocs/python/parser/misc/AssignmentExtractor.py
+++ b/web/htdocs/python/parser/misc/AssignmentExtractor.py
@@ -21,6 +21,9 @@ class AssignmentExtractor:
             assign = statement.body[0]
 
             for target in assign.targets:
+                if not isinstance(target.target, libcst.Name):
+                    continue
+
                 ret.append({
                     "name": target.target.value,
                     "node": assign.value
diff --git a/web/htdocs/python/parser/misc/AssignmentNameExtractor.py b/web/htdocs/python/parser/misc/AssignmentNameExtractor.py
index f4fa4b3..da79258 100644
--- a/web/htdocs/python/parser/misc/AssignmentNameExtractor.py
+++ b/web/htdocs/python/parser/misc/AssignmentNameExtractor.py
@@ -17,7 +17,7 @@ class AssignmentNameExtractor:
             assign = statement.body[0]
 
             for target in assign.targets:
-                if target.target.value.startswith("_"):
+                if not isinstance(target.target, libcst.Name) or target.target.value.startswith("_"):
                     continue
 
                 ret.append(target.target.value)
diff --git a/web/htdocs/python/parser/misc/CodeExtractor.py b/web/htdocs/python/parser/misc/CodeExtractor.py
index b4223c0..3809e2a 100644
--- a/web/htdocs/python/parser/misc/CodeExtractor.py
+++ b/web/htdocs/python/parser/misc/CodeExtractor.py
@@ -27,7 +27,7 @@ class CodeExtractor:
 
             assign = statement.body[0]
             for target in assign.targets:
-                if target.target.value != assign_name:
+                if not isinstance(target.target, libcst.Name) or target.target.value != assign_name:
                     continue
 
                 ret = self._parse_node(assign.value)
diff --git a/web/htdocs/python/parser/misc/ReplaceAssignmentTransformer.py b/web/htdocs/python/parser/misc/ReplaceAssignmentTransformer.py
index b07ff59..51f7fcd 100644
--- a/web/htdocs/python/parser/misc/ReplaceAssignmentTransformer.py
+++ b/web/htdocs/python/parser/misc/ReplaceAssignmentTransformer.py
@@ -1,3 +1,5 @@
+import libcst
+
 from .VisitorsWithStack import TransformerWithStack
 
 class ReplaceAssignmentTransformer(TransformerWithStack):
@@ -12,7 +14,7 @@ class ReplaceAssignmentTransformer(TransformerWithStack):
             return updated_node
         
         for target in updated_node.targets:
-            if target.target.value == self.name:
+            if isinstance(target.target, libcst.Name) and target.target.value == self.name:
                 self.replaced = True
                 return updated_node.with_changes(
                     value = self.node
-- 
2.43.0


From bbedfe0217883c25d565d130fa7bb8e579e75e03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:45:03 +0000
Subject: [PATCH 38/39] fix: the web editor adds imports at the beginning of
 the module, and does not replace other imports of the same name

---
 web/htdocs/js/PySwitchRunner.js               |  1 +
 .../parser/misc/AddImportsTransformer.py      | 31 ++++++++++++-------
 .../parser/misc/ImportedNamesExtractor.py     | 20 ++++++++++++
 3 files changed, 40 insertions(+), 12 deletions(-)
 create mode 100644 web/htdocs/python/parser/misc/ImportedNamesExtractor.py

diff --git a/web/htdocs/js/PySwitchRunner.js b/web/htdocs/js/PySwitchRunner.js
index 036d3e6..f9e496b 100644
--- a/web/htdocs/js/PySwitchRunner.js
+++ b/web/htdocs/js/PySwitchRunner.js
@@ -123,6 +123,7 @@ class PySwitchRunner {
             this.#loadModule("parser/misc/ClassNamesExtractor.py", localPythonPath),
             this.#loadModule("parser/misc/AssignmentExtractor.py", localPythonPath),
             this.#loadModule("parser/misc/AssignmentNameExtractor.py", localPythonPath),
+            this.#loadModule("parser/misc/ImportedNamesExtractor.py", localPythonPath),
             this.#loadModule("parser/misc/ImportExtractor.py", localPythonPath),
             this.#loadModule("parser/misc/ReplaceAssignmentTransformer.py", localPythonPath),
             this.#loadModule("parser/misc/AddAssignmentTransformer.py", localPythonPath),
diff --git a/web/htdocs/python/parser/misc/AddImportsTransformer.py b/web/htdocs/python/parser/misc/AddImportsTransformer.py
index 63d8377..c129565 100644
--- a/web/htdocs/python/parser/misc/AddImportsTransformer.py
+++ b/web/htdocs/python/parser/misc/AddImportsTransformer.py
@@ -1,21 +1,28 @@
 import libcst
 
+from .ImportedNamesExtractor import ImportedNamesExtractor
+
 class AddImportsTransformer(libcst.CSTTransformer):
     
     def __init__(self, import_paths):
         self.import_paths = import_paths
-        self.__done = False
 
-    def leave_SimpleStatementLine(self, original_node, updated_node):
-        if self.__done:
-            return updated_node
-        
-        self.__done = True
-        
-        new_statements = [
-            libcst.parse_statement("from " + definition["importPath"] + " import " + (definition["importName"] if "importName" in definition else definition["name"]) + "\n")
-            for definition in self.import_paths
-        ]
+    def leave_Module(self, original_node, updated_node):
+        imported = ImportedNamesExtractor().get(original_node)
+
+        new_statements = []
+        for definition in self.import_paths:
+            name = definition["importName"] if "importName" in definition else definition["name"]
+
+            # Names which are imported already stay what they are
+            if name in imported:
+                continue
+
+            new_statements.append(
+                libcst.parse_statement("from " + definition["importPath"] + " import " + name + "\n")
+            )
 
-        return libcst.FlattenSentinel(new_statements + [updated_node])
+        return updated_node.with_changes(
+            body = new_statements + list(updated_node.body)
+        )
         
\ No newline at end of file
diff --git a/web/htdocs/python/parser/misc/ImportedNamesExtractor.py b/web/htdocs/python/parser/misc/ImportedNamesExtractor.py
new file mode 100644
index 0000000..a642621
--- /dev/null
+++ b/web/htdocs/python/parser/misc/ImportedNamesExtractor.py
@@ -0,0 +1,20 @@
+import libcst
+
+class ImportedNamesExtractor:
+
+    # Returns the set of all names which are imported on module level
+    def get(self, cst):
+        ret = set()
+
+        for statement in cst.body:
+            if not isinstance(statement, libcst.SimpleStatementLine):
+                continue
+
+            for node in statement.body:
+                if not isinstance(node, (libcst.Import, libcst.ImportFrom)) or isinstance(node.names, libcst.ImportStar):
+                    continue
+
+                for name in node.names:
+                    ret.add(name.asname.name.value if name.asname else name.name.value)
+
+        return ret
-- 
2.43.0


From bcfb02682f16c44d87c2e964de59057a35a8d594 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:45:03 +0000
Subject: [PATCH 39/39] fix: assignments added by the web editor are defined
 before they are used

---
 web/htdocs/js/PySwitchRunner.js               |  1 +
 web/htdocs/python/parser/PySwitchParser.py    | 12 +++-
 .../parser/misc/AddAssignmentTransformer.py   | 21 ++----
 .../python/parser/misc/AssignmentSorter.py    | 65 +++++++++++++++++++
 4 files changed, 83 insertions(+), 16 deletions(-)
 create mode 100644 web/htdocs/python/parser/misc/AssignmentSorter.py

diff --git a/web/htdocs/js/PySwitchRunner.js b/web/htdocs/js/PySwitchRunner.js
index f9e496b..a196b40 100644
--- a/web/htdocs/js/PySwitchRunner.js
+++ b/web/htdocs/js/PySwitchRunner.js
@@ -123,6 +123,7 @@ class PySwitchRunner {
             this.#loadModule("parser/misc/ClassNamesExtractor.py", localPythonPath),
             this.#loadModule("parser/misc/AssignmentExtractor.py", localPythonPath),
             this.#loadModule("parser/misc/AssignmentNameExtractor.py", localPythonPath),
+            this.#loadModule("parser/misc/AssignmentSorter.py", localPythonPath),
             this.#loadModule("parser/misc/ImportedNamesExtractor.py", localPythonPath),
             this.#loadModule("parser/misc/ImportExtractor.py", localPythonPath),
             this.#loadModule("parser/misc/ReplaceAssignmentTransformer.py", localPythonPath),
diff --git a/web/htdocs/python/parser/PySwitchParser.py b/web/htdocs/python/parser/PySwitchParser.py
index 8e3e8bd..85fcefb 100644
--- a/web/htdocs/python/parser/PySwitchParser.py
+++ b/web/htdocs/python/parser/PySwitchParser.py
@@ -12,6 +12,7 @@ from .misc.AssignmentExtractor import AssignmentExtractor
 from .misc.ImportExtractor import ImportExtractor
 from .misc.ReplaceAssignmentTransformer import ReplaceAssignmentTransformer
 from .misc.AddAssignmentTransformer import AddAssignmentTransformer
+from .misc.AssignmentSorter import AssignmentSorter
 from .misc.ClassNameExtractor import ClassNameExtractor
 
 class PySwitchParser:
@@ -81,6 +82,7 @@ class PySwitchParser:
         ).generate(inputs_py)
         
         self.set_assignment("Inputs", inputs_node, "inputs_py")
+        self._order_assignments("inputs_py")
 
     # Searches for an Assign with the given name and returns its node, or None if not found
     def get_assignment(self, name, file_id):
@@ -127,6 +129,7 @@ class PySwitchParser:
         ).generate(splashes_py)
         
         self.set_assignment("Splashes", splashes_node, "display_py")
+        self._order_assignments("display_py")
 
     ########################################################################################
         
@@ -140,14 +143,19 @@ class PySwitchParser:
         adder = AddAssignmentTransformer(
             name, 
             call_node, 
-            insert_before_assign = insert_before_assign, 
-            cst = self.__csts[file_id] if not insert_before_assign else None
+            insert_before_assign = insert_before_assign
         )
 
         self.__csts[file_id] = self.__csts[file_id].visit(adder)
 
     ########################################################################################
 
+    # Moves assignments in front of the ones using them, if necessary
+    def _order_assignments(self, file_id):
+        self.__csts[file_id] = AssignmentSorter().sort(self.__csts[file_id])
+
+    ########################################################################################
+
     # Remove unused imports on all files. Does no config update!
     def _remove_unused_imports(self):
         self._remove_unused_import_for_file("inputs_py")
diff --git a/web/htdocs/python/parser/misc/AddAssignmentTransformer.py b/web/htdocs/python/parser/misc/AddAssignmentTransformer.py
index 8be9026..5a12bf4 100644
--- a/web/htdocs/python/parser/misc/AddAssignmentTransformer.py
+++ b/web/htdocs/python/parser/misc/AddAssignmentTransformer.py
@@ -2,10 +2,10 @@ import libcst
 from .VisitorsWithStack import TransformerWithStack
 
 class AddAssignmentTransformer(TransformerWithStack):
-    def __init__(self, name, call_node, insert_before_assign = None, cst = None):
+    # If insert_before_assign is None or not found, the assignment is added at the end
+    def __init__(self, name, call_node, insert_before_assign = None):
         super().__init__()
-        self.cst = cst
-        self._count = 0
+        self.__added = False
         
         self.name = name
         self.insert_before_assign = insert_before_assign
@@ -13,12 +13,12 @@ class AddAssignmentTransformer(TransformerWithStack):
         self.call_node = call_node
 
     def leave_Module(self, original_node, updated_node):
-        if not self.cst or len(self.cst.body) > 0:
+        if self.__added:
             return updated_node
         
-        # In case there is no body, the leave_SimpleStatementLine method is never called
+        # Add at the end
         return updated_node.with_changes(
-            body = [
+            body = list(updated_node.body) + [
                 self._generate_statement()
             ]
         )
@@ -35,15 +35,8 @@ class AddAssignmentTransformer(TransformerWithStack):
             
             for target in assign.targets:
                 if isinstance(target.target, libcst.Name) and target.target.value == self.insert_before_assign:                
+                    self.__added = True
                     return libcst.FlattenSentinel([self._generate_statement(), updated_node])
-        else:
-            if not self.cst:
-                raise Exception("You have to provide a CST to add a statement as last statement")
-            
-            self._count += 1
-
-            if self._count == len(self.cst.body):
-                return libcst.FlattenSentinel([updated_node, self._generate_statement()])
             
         return updated_node        
 
diff --git a/web/htdocs/python/parser/misc/AssignmentSorter.py b/web/htdocs/python/parser/misc/AssignmentSorter.py
new file mode 100644
index 0000000..88bafdc
--- /dev/null
+++ b/web/htdocs/python/parser/misc/AssignmentSorter.py
@@ -0,0 +1,65 @@
+import libcst
+
+class AssignmentSorter:
+
+    # Returns the passed module with all assignments on module level which are used by others
+    # (in calls, lists, dicts and attributes) before they are defined moved in front of these. 
+    def sort(self, cst):
+        assigned = {}
+        for statement in cst.body:
+            for name in self._get_names(statement):
+                if name not in assigned:
+                    assigned[name] = statement
+
+        body = []
+        visited = []
+        def add(statement):
+            if any(statement is s for s in visited):
+                return
+            visited.append(statement)
+
+            if self._get_names(statement):
+                for name in self._get_references(statement.body[0].value):
+                    if name in assigned:
+                        add(assigned[name])
+
+            body.append(statement)
+
+        for statement in cst.body:
+            add(statement)
+
+        return cst.with_changes(
+            body = body
+        )
+
+    # Names assigned by the statement
+    def _get_names(self, statement):
+        if not isinstance(statement, libcst.SimpleStatementLine) or not isinstance(statement.body[0], libcst.Assign):
+            return []
+        
+        return [
+            target.target.value 
+            for target in statement.body[0].targets 
+            if isinstance(target.target, libcst.Name)
+        ]
+
+    # Names directly used by the value node
+    def _get_references(self, node):
+        if isinstance(node, libcst.Name):
+            return [node.value]
+        
+        if isinstance(node, libcst.Call):
+            children = [node.func] + [arg.value for arg in node.args]
+        elif isinstance(node, libcst.Attribute):
+            children = [node.value]
+        elif isinstance(node, libcst.List):
+            children = [element.value for element in node.elements]
+        elif isinstance(node, libcst.Dict):
+            children = [element.value for element in node.elements]
+        else:
+            children = []
+
+        ret = []
+        for child in children:
+            ret += self._get_references(child)
+        return ret
-- 
2.43.0

