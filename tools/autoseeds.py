SEEDS = []
def S(id, needs, breaks, *edits):
    SEEDS.append(dict(id=id, property="C" + id[1:3], needs=needs, breaks=breaks, edits=list(edits)))

A = "clients/kemper/actions/"
S("c02-inputs-once", "a press and release (or another input event) while a burst of messages arrives", "inputs are only scanned once per tick, not between the messages of a burst",
  ("controller/controller.py", """            # Detect switch state changes
            for input in self.inputs:
                input.process()
            
            if self.__debug_stats:
                self.__measurement_process_jitter.start()
""", """            # Detect switch state changes
            if cnt % 2 == 0:
                for input in self.inputs:
                    input.process()
            
            if self.__debug_stats:
                self.__measurement_process_jitter.start()
"""))
S("c02-burst-limit", "more messages waiting than may be handled in one run", "one message more than configured is taken, and lost",
  ("controller/controller.py", """            midimsg = self.__midi.receive()
            self.client.receive(midimsg)

            # Break after a certain amount of messages to keep the device responsive
            cnt = cnt + 1
            if not midimsg or cnt > self.__max_consecutive_midi_msgs:
                break  
""", """            midimsg = self.__midi.receive()

            # Break after a certain amount of messages to keep the device responsive
            cnt = cnt + 1
            if cnt > self.__max_consecutive_midi_msgs + 1:
                break

            self.client.receive(midimsg)
            if not midimsg:
                break  
"""))
S("c05-momentary-hold", "a hold momentary button set by the device while it is held down", "at the end of a long press the state at the beginning of the press is restored, not the state inverted",
  ("controller/actions/__init__.py", """            # Hold Momentary: Toggle like latch, and remember the current timestamp
            self.__period.reset()
            self.state = not self.state
""", """            # Hold Momentary: Toggle like latch, and remember the current timestamp
            self.__period.reset()
            self.__hold_state = self.state
            self.state = not self.state
"""), ("controller/actions/__init__.py", """                # Momentary if the period exceeded
                self.state = not self.state
""", """                # Momentary if the period exceeded
                self.state = self.__hold_state
"""))
S("c06-shared-lifetime", "a second listener asking for the same parameter while the first request is already waiting for long", "joining a waiting request renews its lifetime, so that it is never reported as lost as long as someone asks",
  ("controller/client.py", """        else:
            # Existing request: Add listener
            if listener:
                req.add_listener(listener)

    # Create a new request""", """        else:
            # Existing request: Add listener
            if listener:
                req.add_listener(listener)

            if send and req.lifetime:
                req.lifetime.reset()

    # Create a new request"""))
S("c08-sense-any", "another status message of the Profiler (other address page) while the sensing stopped", "every message of function code 0x7e keeps the connection alive",
  ("clients/kemper/__init__.py", "if midi_message.data[2:5] != self.__mapping_sense.response.data[2:5]:", "if midi_message.data[2:4] != self.__mapping_sense.response.data[2:4]:"))
S("c08-resend-reset", "a connection lost and established again within half of the time lease", "the keep alive period is not restarted when the connection has been established again",
  ("clients/kemper/__init__.py", """        if self.state != self._STATE_RUNNING:
            self.resend_period.reset()
            """, """        if self.state != self._STATE_RUNNING:
            if not self.__has_been_running:
                self.resend_period.reset()
            """))
S("c11-direct-restart", "three pages with direct selection, the last one selected before", "the direct page switch of the pager steps back one page only, instead of selecting its page, when a page further behind is shown",
  (  "clients/local/actions/pager.py", """            # Direct select
            self.current_page_index = self.__select_page_index
        else:""", """            # Direct select
            if self.current_page_index > self.__select_page_index:
                self.current_page_index -= 1
            else:
                self.current_page_index = self.__select_page_index
        else:"""))
S("c15-accept-twice", "accepting twice after a preselection", "the second accept sends the value again",
  ("controller/actions/EncoderAction.py", """        if self.__preselect and not self.__preselect_active:
            return
        """, """        if self.__preselect and not self.__preselect_active and self._last_value == self._get_value():
            return
        """))
S("c19-other-blink", "two preselection switches used one after the other", "the switch pressed first goes on as owner of the preselection",
  (A + "bank_up_down.py", """            self.__appl.shared["preselectedBank"] = value
            self.__appl.shared["preselectCallback"] = self
""", """            if not "preselectedBank" in self.__appl.shared:
                self.__appl.shared["preselectCallback"] = self
            self.__appl.shared["preselectedBank"] = value
"""))
S("c21-last-value", "morphing by the pedal to the value which has been reported before an internal toggle", "a morph value equal to the last reported one is not adopted",
  (A + "morph.py", """    def evaluate_value(self, value):
        if self.__set_internal_state and value != None and value != self.__last_value:
            self.__last_value = value

            if not self.ignore_next_value:
                # Morph value has changed from the outside
                self.appl.shared["morphStateOverride"] = value
""", """    def evaluate_value(self, value):
        if self.__set_internal_state and value != None and value != self.__last_value:
            if not self.ignore_next_value:
                # Morph value has changed from the outside
                self.__last_value = value
                self.appl.shared["morphStateOverride"] = value
"""))
S("c22-rig-change", "the same off beat displayed twice in a row with something else on the LED in between", "a repeated tempo off message writes the LED again",
  (A + "tempo.py", "if value != None and value != self.__current_value:\n            self.__current_value = value\n", "if value != None and value != self.__current_value:\n            self.__current_value = value if value > 0 else None\n"))
S("c24-rotate-step", "more texts than messages", "the texts start over with the messages",
  ("clients/local/actions/rotate.py", """        if self.__messages and self.__messages_pos >= len(self.__messages):
            self.__messages_pos = 0
""", """        if self.__messages and self.__messages_pos >= len(self.__messages):
            self.__messages_pos = 0
            self.__texts_pos = 0
"""))
S("c25-repeat-limit", "a switch held down until the end of the range, and the value changed by someone else meanwhile", "the repetition has ended at the limit although the switch is still held",
  ("clients/local/actions/param_change.py", """        self.__pushed = True
        if self.__repeat_period:
            self.__repeat_period.reset()
""", """        self.__pushed = 0 < v < self._max_value
        if self.__repeat_period:
            self.__repeat_period.reset()
"""))
S("c26-strobe-wrap", "a strongly flat note", "the speed of the strobe is not limited for flat notes",
  ("controller/strobe.py", """        if delta < -threshold:
            delta = -threshold
""", """        if delta < -threshold * 2:
            delta = -threshold
"""))
S("c28-usb-channel", "messages of other channels coming in via the DIN port", "the DIN port only listens to the channel it sends on",
  ("hardware/adafruit/AdafruitDinMidiDevice.py", "            midi_in = midi_uart, \n            in_channel = in_channel,", "            midi_in = midi_uart, \n            in_channel = in_channel if in_channel else out_channel,"))

# --- 2nd batch
S("c07-two-part-retry", "a value of two parts, of which the second part of an earlier transmission was lost", "the first part of a newer value is not accepted while an older one is waiting for its second part",
  ("controller/client.py", """        value_1 = self.parse_against(midi_message, self.response[0])
        if value_1 != None:
            self.__value_1 = value_1
""", """        value_1 = self.parse_against(midi_message, self.response[0])
        if value_1 != None:
            if self.__value_1 == None:
                self.__value_1 = value_1
"""))
S("c10-auto-list", "a parameter changed twice by the device while switched off, with two set messages and 'auto' as value to restore", "the value to restore is only learned once",
  ("controller/callbacks/__init__.py", """                if self.__update_value_disabled[i]:
                    self._value_disable[i] = value
""", """                if self.__update_value_disabled[i] and self._value_disable[i] == "auto":
                    self._value_disable[i] = value
"""))
S("c10-reset-eval", "an action disabled and enabled again, with its parameter unchanged and on", "the action shows the off state as long as its value does not change",
  ("controller/callbacks/__init__.py", """    def reset(self):
        self._current_display_state = -1
        self.__current_value = self       # Just some value which will never occur as a mapping value ;)
        self._current_color = -1
""", """    def reset(self):
        self._current_display_state = -1
        if self.__use_internal_state or not self.mapping.response:
            self.__current_value = self       # Just some value which will never occur as a mapping value ;)
        self._current_color = -1
"""))
S("c12-multi", "a color of several parts on an action using a part of the LEDs", "the color parts are taken by the number of the LED",
  ("controller/actions/__init__.py", "                    tmp[segment] = color[floor(len(color) / 2)]\n", "                    tmp[segment] = color[segment if segment < len(color) and len(segments) > 1 else floor(len(color) / 2)]\n"))
S("c14-above", "a value above the range of the encoder reported by the device, and turning downwards", "turning downwards leaves the value outside of the range",
  ("controller/actions/EncoderAction.py", "        if v > self.__max_value:\n            v = self.__max_value\n", "        if v > self.__max_value and add_value > 0:\n            v = self.__max_value\n"))
S("c18-exclude", "rigs excluded from auto off", "the wrong rigs are excluded",
  (A + "rig_select.py", "(curr_rig + 1) not in self.__auto_exclude_rigs)", "(curr_rig + 1) not in self.__auto_exclude_rigs or self.__bank_off_auto)"))
S("c23-same-category", "an effect replaced by another one of the same category", "the text of the new effect is not shown if its color is the same",
  ("controller/callbacks/effect_enable.py", "        if self.__current_kpp_type == self.mapping_fxtype.value:\n", "        if self.__current_kpp_type != None and self.mapping_fxtype.value != None and self.get_effect_category(self.__current_kpp_type) == self.get_effect_category(self.mapping_fxtype.value):\n"))
S("c24-hid-tuple", "several keys in a list", "each key is only sent once",
  ("clients/local/actions/hid.py", "        for code in self.__keycodes:\n", "        for code in dict.fromkeys(self.__keycodes):\n"))
S("c27-freeze-slot", "freeze of a slot answered by the device", "the answer is compared with the wrong address",
  ("clients/kemper/mappings/fixed_fx.py", "NRPN_FUNCTION_RESPONSE_SINGLE_PARAMETER, ", "NRPN_FUNCTION_REQUEST_SINGLE_PARAMETER, "))
S("c30-text-color", "a label with a fixed text color while its background changes", "the text color becomes unreadable",
  ("ui/elements.py", "        # Update text color, too (might change when no initial color has been set)\n        self.text_color = self.__initial_text_color\n", "        # Update text color, too (might change when no initial color has been set)\n        if not self.text_color or not self.__initial_text_color or self.text_color != self.__initial_text_color:\n            self.text_color = self.__determine_text_color()\n"))
S("c30-split-none", "a split container with an empty slot", "the slots are sized by all children",
  ("ui/DisplaySplitContainer.py", "            slot_height = int(bounds.height / len(active_children))\n", "            slot_height = round(bounds.height / len(active_children))\n"))
S("c30-zero-value", "a parameter of value zero shown by a label", "zero is shown as the default text",
  ("controller/callbacks/parameter_display.py", "        if self.__mapping.value != None:\n            label.text = str(self.__mapping.value)\n", "        if self.__mapping.value:\n            label.text = str(self.__mapping.value)\n"))

S("c09-lost-listeners", "a connection lost with a bidirectional parameter which was set on the device meanwhile", "parameters which are known when the connection is lost stay known",
  ("controller/client.py", """            if self.protocol.is_bidirectional(r.mapping):
                r.notify_terminated()""", """            if self.protocol.is_bidirectional(r.mapping) and r.mapping.set:
                r.notify_terminated()"""))
S("c16-other-timeout", "two parties with different preview times using one label", "the preview time of the first party is used for all others",
  ("controller/preview.py", """            else:
                self.__period.interval = timeout_millis                
""", """            elif self.__period.exceeded:
                self.__period.interval = timeout_millis                
"""))
S("c17-engaging-release", "actions which go on while tuning, and tuner mode being engaged while a switch is held down", "the action pressed before does not see its release",
  ("clients/kemper/__init__.py", """            # This prevents that the tuner button switches off the tuner immediately at releasing 
            return
""", """            # This prevents that the tuner button switches off the tuner immediately at releasing 
            return self.__process_overridden_actions
"""))
S("c20-own-preselection", "bank up and bank down with preselection pressed one after the other", "each of them continues its own preselection only",
  ("clients/kemper/actions/bank_up_down.py", """        if "preselectedBank" in self.__appl.shared:
            bank = self.__appl.shared["preselectedBank"]

        if bank == None:""", """        if "preselectedBank" in self.__appl.shared and self.__appl.shared["preselectCallback"] == self:
            bank = self.__appl.shared["preselectedBank"]

        if bank == None:"""))
S("c29-same-again", "the same switch pressed twice in a row", "the mark of the last pressed switch is taken away",
  ("controller/explore.py", """        if self.latest_marker:
            self.latest_marker.back_color = Colors.LIGHT_BLUE

        for row in self.__ports_display_rows.children:
            for col in row.children:
                if label == col:
                    self.latest_marker = col
                    col.back_color = Colors.RED
""", """        for row in self.__ports_display_rows.children:
            for col in row.children:
                if label == col:
                    col.back_color = Colors.RED
        
        if self.latest_marker:
            self.latest_marker.back_color = Colors.LIGHT_BLUE

        self.latest_marker = label
"""))
S("c31-alias-unused", "an import with alias which is not used", "it stays in the file",
  ("/web/htdocs/python/parser/misc/RemoveUnusedImportTransformer.py", """                name_value = asname.name.value
            else:""", """                name_value = name.name.value
            else:"""))
S("c31-positional", "display bounds given partly by position and partly by keyword", "keywords count as positions",
  ("/web/htdocs/python/parser/misc/CodeExtractor.py", """            if argument.keyword:
                new_arg["name"] = libcst.parse_module("").code_for_node(argument.keyword)
            else:
                name = next_arg_name()
                if name:""", """            name = next_arg_name()
            if argument.keyword:
                new_arg["name"] = libcst.parse_module("").code_for_node(argument.keyword)
            else:
                if name and len(call_node.args) == len(arg_names):"""))
S("c32-volume-curve", "a volume between 20 and 30 percent", "the value shown is wrong by up to 2 dB",
  ("clients/kemper/callbacks/convert_volume.py", "value >= 30", "value >= 22"))
S("c32-cab-name", "a rig change while the cabinet's name is shown", "the name is requested all the time instead of once per rig",
  ("clients/kemper/mappings/cabinet.py", """        depends = KemperMappings.RIG_DATE(),
""", ""))
S("c32-rotary-page", "the rotary speed of the slots without spillover", "the answer of another slot is taken",
  ("clients/kemper/mappings/rotary.py", """            NRPN_FUNCTION_RESPONSE_SINGLE_PARAMETER,
            KemperEffectSlot.NRPN_SLOT_ADDRESS_PAGE[slot_id],""", """            NRPN_FUNCTION_RESPONSE_SINGLE_PARAMETER,
            KemperEffectSlot.NRPN_SLOT_ADDRESS_PAGE[slot_id % 9],"""))

S("c33-even-leds", "a Boomerang switch with two or four LEDs", "the wrong LED is bright",
  ("clients/boomerang/actions/boomerang.py", "if i == (num_leds - j - 1) else", "if (i + j) % num_leds == 2 % num_leds else"))
S("c33-pages", "a Boomerang switch with several LEDs on a page", "its LEDs beside the first shine on and turn on the other pages",
  ("clients/local/actions/rotate.py", """                "useSwitchLeds": use_leds,
                "id": id,
                "enableCallback": enable_callback
            })            
""", """                "useSwitchLeds": use_leds,
                "id": id,
                "enableCallback": enable_callback if i == 0 else None
            })            
"""))
S("c33-dim-option", "a Boomerang switch with several LEDs and an own brightness", "the brightness configured for the second state is ignored",
  ("clients/boomerang/actions/boomerang.py", "if i == (num_leds - j - 1) else led_brightness_2)", "if i == (num_leds - j - 1) else min(led_brightness_2, 0.02))"))
