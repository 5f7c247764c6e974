#!/usr/bin/python3
"""Writes /verif/properties.jsonl (kept as Python for readability of the statements)."""
import json, os
OUT = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
P = []
L = "content/lib/pyswitch/"

def prop(id, title, statement, over, quant, why, files, mech, observe=None):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=quant), why_tests_cant=why,
                  anchors=dict(files=[L + f if not f.startswith("/") else f[1:] for f in files],
                               mechanism=[dict(name=n, where=w) for n, w in mech],
                               observe_at=observe or ["MIDI ports, LED driver and display tree of a simulated device"])))

prop("C01", "MIDI routing delivers every message exactly once, in order",
     "For any set of configured routings, every message read from a source port is passed exactly once per routing, unmodified and in order of arrival, to every external port it is routed to (only events of unknown type are not passed on to ports), and handed exactly once and in order to the application if the source is routed to it. Messages sent by the application go exactly once to every port routed from the application and nowhere else; ports without a routing get and lose nothing.",
     ["configurations", "histories"], "all routing graphs over several ports (fan-out, merge, loops, shared sources), all interleavings of arriving messages, polls and sends",
     "The tests use one or two fixed graphs and two messages; a source which feeds the application and a port at the same time is not tested at all.",
     ["controller/midi.py"], [("MidiController.receive / send / external routings", "controller/midi.py")])

prop("C02", "The processing loop stays responsive and loses no message",
     "All inputs (switches, pots, encoders) are evaluated at least once before every single MIDI message is handled, one loop pass handles at most the configured number of consecutive messages plus one per burst, and every message reaches the client exactly once in order of arrival. Periodic updates are run in registration order, exactly once each time the update interval has been exceeded and never in between, with all inputs evaluated before each single update. At startup, buffered messages are discarded without being interpreted (unless this is disabled by configuration).",
     ["schedules", "configurations"], "all message backlogs, tick times, burst limits and update intervals",
     "Tests call tick() a few times with at most a couple of messages and one fixed interval.",
     ["controller/controller.py", "misc.py"], [("Controller.tick / message bursts", "controller/controller.py"), ("PeriodCounter", "misc.py")])

prop("C03", "Each footswitch press and release triggers its actions exactly once",
     "For a switch without hold actions, each physical press triggers a push of every enabled action exactly once in configured order, and each release triggers one release of every enabled action, no matter how often the switch is polled while its position does not change. Nested action lists are flattened in order, disabled actions are never triggered, and an override (as used by tuner mode) gets the events instead of the actions, which see neither a press nor the release of a press consumed by an override unless the override lets it pass.",
     ["histories", "configurations"], "all sequences of press/release/poll/enable/override events and all action lists",
     "Tests cover single press/release sequences of one or two actions.",
     ["controller/inputs.py"], [("SwitchController.process", "controller/inputs.py")])

prop("C04", "Short press and hold of a switch are mutually exclusive",
     "For a switch with hold actions, a press which ends before the hold time triggers push and release of each enabled normal action exactly once (on release) and no hold action; a press lasting longer triggers each enabled hold action's push and release exactly once (with hold repeat: once again every time another hold time has passed) and none of the normal actions. Every press is judged on its own, independent of how earlier presses ended and of any override in between.",
     ["schedules", "histories"], "all timings of press, polls and release relative to the hold time, sequences of several presses, with and without repeat and override",
     "Tests use a mocked hold counter and single presses; sequences of presses with repeat which end exactly when another period has passed are not covered.",
     ["controller/inputs.py"], [("SwitchController hold handling", "controller/inputs.py")])

prop("C05", "Push button modes switch the state exactly as documented",
     "For every push button mode (enable, disable, latch, momentary, momentary inverse, hold-momentary, one shot, no state change), the state after any sequence of pushes, releases, pauses and state feedback from the device is the documented one, and the functionality is told about a user change exactly once for every change of state by the user, never for feedback from the device or a reset. Hold-momentary toggles on push and toggles back on release exactly if the button was held longer than the hold time; one shot fires on every push.",
     ["histories", "schedules"], "all sequences of push, release, waiting times, feedback and reset for all modes",
     "Tests walk one or two cycles per mode with mocked counters.",
     ["controller/actions/__init__.py"], [("PushButtonAction.push/release/state", "controller/actions/__init__.py")])

prop("C06", "Requested parameters are answered once, shared, or reported as lost",
     "Without a bidirectional protocol, every parameter in use is requested from the device again in each update cycle, but at most one request per parameter is outstanding at any time, and all parties asking meanwhile get the one answer, each exactly once. A request unanswered for longer than the configured lifetime is given up: every waiting party is notified of that exactly once, later answers to it are ignored, and the next cycle requests again. A parameter which depends on another one is requested again exactly when that one's value has changed, everybody interested in it gets the answer, and nobody is told anything if only the other one got lost.",
     ["histories", "schedules", "fault_sequences"], "all interleavings of update cycles, answers (late, lost, duplicated, out of order) and time, any number of listeners per parameter",
     "Tests use one parameter, one or two listeners and never let listeners start requests while answers are distributed.",
     ["controller/client.py"], [("Client.request / receive / cleanup", "controller/client.py"), ("ClientRequest", "controller/client.py")])

prop("C07", "MIDI values are encoded and decoded without loss or crosstalk",
     "A message from the device changes exactly those parameters whose response template it matches (SysEx: manufacturer and function/instance/address bytes, CC: control number, PC: any) and sets them to the value it carries (7 bit, 14 bit, or text); all other messages change nothing. Setting a parameter sends exactly its configured messages in order with the value encoded the same way (SysEx: high and low 7 bits), so reading back what was set yields the same value. Two-part parameters take their value (128 * first + second) only when the second part follows a first part.",
     ["inputs", "histories"], "all values, all templates, all interleavings of messages for several parameters",
     "Tests check single values for single templates.",
     ["controller/client.py"], [("ClientParameterMapping.parse / set_value", "controller/client.py"), ("ClientTwoPartParameterMapping", "controller/client.py")])

prop("C08", "The Kemper connection is initiated, kept alive and its loss detected",
     "While not connected, the device sends an initiating beacon every 5 seconds and no other protocol message; after the first beacon a sense message from the Profiler makes the connection run, and while it runs a non-initiating beacon is sent every half lease time. If no sense message arrives for 1.5 seconds the connection counts as lost: the state indicator goes back to offline, and at the next initiating beacon everybody using protocol parameters is told that the values are gone exactly once. Every beacon carries the configured lease time and flags.",
     ["schedules", "fault_sequences"], "all timings of sense messages, silence, reconnects and update cycles; all lease times and flag settings",
     "Tests run one connect / loss cycle with mocked period counters.",
     ["clients/kemper/__init__.py", "controller/client.py", "ui/elements.py"], [("KemperBidirectionalProtocol", "clients/kemper/__init__.py")])

prop("C09", "Bidirectional parameters are never polled and reflect changes at once",
     "With the Kemper protocol, parameters pushed by the Profiler are never requested by the device, every value pushed by the Profiler reaches all parties using it, and setting one which the Profiler does not echo is reflected to all users immediately. All other parameters are requested as without protocol. On loss of connection the displays of protocol parameters are reset to unknown until the Profiler sends again.",
     ["histories", "fault_sequences"], "all interleavings of pushes, sets, losses, reconnects and several users per parameter",
     "Tests use mock protocols and single listeners.",
     ["controller/client.py", "clients/kemper/__init__.py"], [("BidirectionalClient", "controller/client.py"), ("KemperBidirectionalProtocol.is_bidirectional / feedback_value", "clients/kemper/__init__.py")])

prop("C10", "On/off switches show and set the device's parameter truthfully",
     "The on/off state shown on LED and label follows each changed parameter value by the configured comparison (unknown counts as off), a change by the user stays until the value changes again; pushing sends exactly the configured on or off values. With automatic off value, switching off restores the last value the device reported while the switch was off, and sends nothing if there is none yet.",
     ["histories", "inputs", "configurations"], "all sequences of pushes, device values and losses, all comparison modes, reference values, value lists and automatic off values",
     "Tests check each comparison with a handful of values, mostly directly on the callback object.",
     ["controller/callbacks/__init__.py", "controller/actions/__init__.py"], [("BinaryParameterCallback", "controller/callbacks/__init__.py")])

prop("C11", "Paging enables exactly the actions of the selected page",
     "At any time exactly one page of a pager is selected (initially the first); only actions belonging to it (or to no pager) react to switches and use LEDs and labels, and after a page change all LEDs and labels used by the actions of the new page show their state, at the latest with the next update. The rotating pager steps cyclically through its pages in order, direct selection goes exactly to the requested page, and several pagers are independent of each other.",
     ["histories", "configurations"], "all sequences of page changes, direct selections, presses and device values, any number of pages, pagers and actions",
     "Tests use two or three pages and check single transitions with mocks.",
     ["clients/local/actions/pager.py", "clients/local/actions/pager_direct.py", "controller/actions/__init__.py"], [("PagerAction", "clients/local/actions/pager.py"), ("Action.update", "controller/actions/__init__.py")])

prop("C12", "Actions share the LEDs of a switch without overlapping",
     "The LEDs of a switch are distributed among its enabled LED-using actions: one gets all, several get disjoint segments in order (the first takes the remaining ones; those beyond the number of LEDs get none), and an action changes only LEDs of its own segment. Each LED always shows the color and brightness its owner set last, on the configured pixel of the switch; disabled or non-using actions never change LEDs, nor do actions of other switches.",
     ["configurations", "histories"], "all numbers of pixels and actions, all enable histories, single and multi color settings",
     "Tests check some combinations of up to five actions once.",
     ["controller/actions/__init__.py", "controller/inputs.py"], [("Action LED segments", "controller/actions/__init__.py"), ("SwitchController.brightnesses", "controller/inputs.py")])

prop("C13", "Expression pedals send only valid, changed values at a bounded rate",
     "An analog input only ever sends integer values between 0 and the maximum, never the same value twice in a row, and not more often than the configured rate. Without calibration the value follows the raw position monotonically in the configured number of steps, from 0 (below the threshold) to the maximum; with calibration the range used so far is mapped to that full range, and nothing is sent as long as it is smaller than the minimum window.",
     ["inputs", "schedules", "configurations"], "all raw value and time sequences, resolutions, ranges, calibration settings",
     "Tests use a few raw values.",
     ["controller/actions/AnalogAction.py"], [("AnalogAction.process", "controller/actions/AnalogAction.py")])

prop("C14", "Rotary encoders change their parameter relatively and within range",
     "Turning an encoder by any number of steps changes the parameter by steps times step width relative to its current value (unknown counts as zero), clamped to the valid range, and sends exactly the resulting value if it differs; nothing is sent when the encoder is not turned. The first position read only serves as reference, so switching on never changes a value.",
     ["inputs", "histories"], "all position sequences (negative, wrapping, jumps), value changes by the device in between, ranges and step widths",
     "Tests use short monotone position sequences.",
     ["controller/actions/EncoderAction.py"], [("EncoderAction.process", "controller/actions/EncoderAction.py")])

prop("C15", "Encoder preselection sends nothing until accepted",
     "In preselect mode, turning the encoder only changes and displays the preselected value; nothing is sent until it is accepted by the assigned button, which sends exactly the preselected value once. Cancelling (by button, by a change of the tracked parameter or by another preview on the same label) discards it, and each new preselection starts from the current value.",
     ["histories", "schedules"], "all sequences of turns, accepts, cancels, value changes by the device, and timing",
     "Tests check single accept/cancel sequences with mocks.",
     ["controller/actions/EncoderAction.py", "clients/local/actions/encoder_button.py"], [("EncoderAction.accept / cancel", "controller/actions/EncoderAction.py"), ("ENCODER_BUTTON", "clients/local/actions/encoder_button.py")])

prop("C16", "Value previews appear on change and always give the label back",
     "When a value is changed by a pedal or encoder with preview display, the label shows the new value (converted if configured) at once, keeps showing it while changes go on, and returns to its normal content after the preview time (preselections stay and blink until accepted or cancelled); several previews on one label never leave stale preview text or colors behind or remove each other's preview.",
     ["schedules", "histories"], "all timings of value changes relative to the preview time, several users of one label",
     "Tests use single previews with mocked time.",
     ["controller/preview.py", "ui/elements.py"], [("ValuePreview", "controller/preview.py"), ("DisplayLabel.override_text", "ui/elements.py")])

prop("C17", "Tuner mode takes over the display and switches and restores them",
     "Whenever the Profiler reports tuner mode, the tuner screen is shown at once and all switch LEDs are switched off, and pressing and releasing any switch does nothing but end tuner mode on the Profiler by exactly one message; a press which began before tuner mode does not end it (if configured to process overridden actions, LEDs and switches additionally work as usual). Whenever it reports the end of tuner mode, the normal screen is back, all switches work as before and all LEDs and labels show their current state again.",
     ["histories", "schedules"], "all interleavings of tuner on/off messages, presses and releases",
     "Tests check the callback with mocks, one cycle.",
     ["clients/kemper/__init__.py", "controller/inputs.py", "ui/UiController.py"], [("TunerDisplayCallback", "clients/kemper/__init__.py"), ("SwitchController.override_action", "controller/inputs.py")])

prop("C18", "Rig selection switches reach exactly the rig and bank they name",
     "Pushing a rig select switch selects exactly the configured rig in the configured (or current) bank on the Profiler, by the documented message sequence with exactly one press per push; with an alternate (off) rig or bank configured, pushing while the rig is selected goes there instead, where \"auto\" means the rig and bank (together) which were selected before. LED and label show the configured or current rig and bank in the right color and brightness for every rig ID the Profiler reports.",
     ["inputs", "histories", "configurations"], "all current rig IDs, target rigs and banks, off rigs and banks, display modes, sequences of pushes and rig reports",
     "Tests enumerate a few rigs per display mode.",
     ["clients/kemper/actions/rig_select.py"], [("RIG_SELECT / RIG_SELECT_TO...", "clients/kemper/actions/rig_select.py")])

prop("C19", "Bank preselection ends in exactly the announced rig",
     "Selecting a bank with preselection only announces the bank (blinking switches, preselected bank on the displays) without changing the rig; the following push of a rig select switch without own bank goes to that bank and ends the preselection on all displays. Selecting a rig or bank by other switches (rig up/down, bank select without preselection) goes to its own target and ends an open preselection, another preselection replaces it, so at most one is open at any time, and switches which are disabled leave all displays alone.",
     ["histories", "schedules"], "all sequences of bank and rig switch pushes, rig reports and time",
     "Tests cover selected two-step sequences.",
     ["clients/kemper/actions/bank_select.py", "clients/kemper/actions/rig_select.py", "clients/kemper/actions/bank_up_down.py"], [("preselectedBank handling", "clients/kemper/actions/bank_select.py")])

prop("C20", "Rig and bank up/down step through all positions in order",
     "Each push of rig up/down or bank up/down moves exactly one rig or bank in its direction with the documented messages, within the documented range and wrapping or keeping the rig as configured, and the display shows the bank or rig in the matching color and brightness for every reported rig ID. Turning the bank encoder selects the bank by the configured steps and keeps the current rig.",
     ["inputs", "histories"], "all rig IDs and modes",
     "Tests check a few IDs per mode.",
     ["clients/kemper/actions/rig_up_down.py", "clients/kemper/actions/bank_up_down.py"], [("RIG_UP/RIG_DOWN", "clients/kemper/actions/rig_up_down.py"), ("BANK_UP/BANK_DOWN", "clients/kemper/actions/bank_up_down.py")])

prop("C21", "Morph state displays follow every morph change exactly",
     "The morph state known to the unit is the last one reported by the Profiler or toggled by a morph switch, whichever was later (reports belonging to a toggle already accounted for are ignored), and every morph display shows the color interpolated between base and morphed color for it at once. A morph button sends exactly one press and one release per push, and a rig switch with morph function toggles morph only when its rig is already selected.",
     ["histories", "schedules"], "all sequences of morph reports, rig changes and pushes of morph and rig switches",
     "Tests check a few values and single toggles.",
     ["clients/kemper/actions/morph.py", "clients/kemper/actions/rig_select.py", "clients/kemper/actions/rig_select_and_morph_state.py"],
     [("KemperMorphCallback", "clients/kemper/actions/morph.py"), ("RIG_SELECT_AND_MORPH_STATE", "clients/kemper/actions/rig_select_and_morph_state.py")])

prop("C22", "Tempo display and tap tempo follow the Profiler's beat",
     "The tempo display lights its LEDs exactly on the beats reported by the Profiler (dark in between), and its label shows the rounded current tempo at once whenever it changes and again whenever the switch function is enabled again; while the tuner is active, nothing is displayed. A changed tempo is previewed on the preview label for the preview time unless the rig has been changed in between or it is the first tempo known, and the tap switch sends one message on each press and one on each release.",
     ["histories", "schedules"], "all orders of beats, tempo, rig and tuner reports, page changes, connection losses and timings",
     "Tests check a few values with mocks and never re-enable the action.",
     ["clients/kemper/actions/tempo.py", "clients/kemper/mappings/tempo.py", "clients/kemper/mappings/tempo_bpm.py"], [("SHOW_TEMPO / TAP_TEMPO", "clients/kemper/actions/tempo.py"), ("convert_bpm", "clients/kemper/mappings/tempo_bpm.py")])

prop("C23", "Effect slot switches show and toggle what is loaded in the slot",
     "A switch assigned to an effect slot shows the color and name of the type of effect currently loaded and is on exactly if the slot is not empty and switched on, no matter in which order type and state are reported, change, or get lost. Pushing it switches the slot on or off with exactly one message, and an empty slot is never shown as switched on after a report.",
     ["histories", "schedules"], "all interleavings of type reports, state reports, pushes, page changes and connection losses",
     "Tests report type and state in one fixed order.",
     ["controller/callbacks/effect_enable.py"], [("EffectEnableCallback", "controller/callbacks/effect_enable.py")])

prop("C24", "Message, rotation and keyboard switches send exactly what is configured",
     "A custom message switch sends its message on push and its release message (if any) on release, byte for byte; a rotating one steps through each of its lists of messages, release messages, colors and texts independently and cyclically with each release; a keyboard switch sends each of its key codes once per push in order. LEDs and labels show the configured colors and texts at all times the action is enabled, and fixed text labels keep theirs.",
     ["configurations", "histories"], "all message lists of any lengths, colors, texts and all sequences of presses and page changes",
     "Tests use fixed short lists of equal lengths.",
     ["clients/local/actions/custom.py", "clients/local/actions/rotate.py", "clients/local/actions/hid.py", "clients/local/actions/fixed_text.py"],
     [("ROTATING_MESSAGES", "clients/local/actions/rotate.py"), ("CUSTOM_MESSAGE", "clients/local/actions/custom.py"), ("HID_KEYBOARD", "clients/local/actions/hid.py")])

prop("C25", "Up/down switches step a parameter and never leave its range",
     "Each push of a parameter up/down switch sends exactly one value, the current one plus the offset limited to 0..maximum; while the switch is physically held down and enabled this is repeated in the configured interval (or never if there is none), and not any longer; if the current value is unknown nothing is sent. Label and LED always show the current value (percentage, and brightness rising or falling with it, within the valid color range) for every value reported, and the changed value is previewed for the preview time.",
     ["inputs", "histories", "schedules"], "all values, offsets, maxima, hold durations, page changes and connection losses",
     "Tests check single pushes with mocked periods and never lose a release.",
     ["clients/local/actions/param_change.py", "controller/preview.py"], [("PARAMETER_UP_DOWN", "clients/local/actions/param_change.py")])

prop("C26", "The tuner shows note and deviance; the strobe turns with it",
     "From the moment the Profiler reports tuner mode until it ends, the tuner screen shows the last reported note's name and a marker inside its bounds at the position proportional to the reported deviance (centered when in tune), in the in-tune color exactly if the deviance is inside the calibrated range. With the strobe, the switch LEDs show one highlight turning in the configured direction with a speed proportional to the deviance, standing still (but visible) in tune, never updated more often than the frame rate allows; afterwards all switches show their actions again and nothing of the strobe remains.",
     ["inputs", "histories", "schedules"], "all notes, deviances, zooms, calibrations, numbers and orders of switches, report rates and repeated entering of tuner mode",
     "Tests check the direction of one turn with mocks and never enter tuner mode twice.",
     ["ui/elements.py", "controller/strobe.py", "clients/kemper/__init__.py"], [("TunerDisplay", "ui/elements.py"), ("StrobeController", "controller/strobe.py"), ("TunerDisplayCallback", "clients/kemper/__init__.py")])

prop("C27", "Every ready-made Kemper switch drives its own function and shows it right",
     "Each switch action of the Kemper catalogue (effect buttons, looper, amp, cabinet, freeze, rotary, rig volume boost, fixed effects, effect slots with their extended names) sends exactly the control messages of its function with the values for on and off, in the press mode configured, and nothing else. Its LEDs, color, brightness and label text follow the states, effect types and values the Profiler reports, where an effect slot shows category and name for every effect type the Profiler knows and empty for all others.",
     ["inputs", "histories"], "all actions, slots, modes, effect types, reported values, brightness options and histories of presses and reports",
     "Tests create the actions and compare single mapping attributes; most effect types are never shown.",
     ["clients/kemper/actions/effect_state.py", "clients/kemper/actions/effect_state_extended_names.py", "clients/kemper/actions/looper.py", "clients/kemper/actions/effect_button.py"],
     [("KemperEffectEnableCallback", "clients/kemper/actions/effect_state.py"), ("_EFFECT_TYPE_NAMES", "clients/kemper/actions/effect_state_extended_names.py")])

prop("C28", "Every switch, pedal, wheel and MIDI port is wired as labelled on the device",
     "On each supported device a press of the switch printed with a name performs exactly the actions configured for that name and lights its own LEDs, pedals and wheel drive the parameters configured for them, and what the application sends or is sent travels as correct MIDI bytes on the configured channels over exactly the USB and DIN connections the routings name. At power on the USB drive is hidden and made writable for the firmware unless switch 1 is held, and messages waiting are discarded if configured. If a configuration file or an action raises an error, the firmware stops: the error goes to the MIDI bridge if it is enabled, else it propagates.",
     ["inputs", "histories", "faults"], "all devices, assignments, routings, channels, press patterns, wire traffic and failing configurations",
     "Tests replace all hardware with mocks and never run the program against pins and wires.",
     ["process.py", "hardware/devices/pa_midicaptain_10.py", "hardware/adafruit/__init__.py"], [("PA_MIDICAPTAIN_10_SWITCH_1", "hardware/devices/pa_midicaptain_10.py"), ("AdafruitSwitch", "hardware/adafruit/AdafruitSwitch.py")])

prop("C29", "Explore mode names the pin of every switch and lets the LEDs be found",
     "In explore mode each usable digital pin gets exactly one label on the screen, in name order and not overlapping others, and a pin which is in use otherwise is left alone. Every press of a switch prints its pin name and the addresses of the LEDs selected by it once, marks its label as the last one pressed (and no other), and moves the one highlighted group of LEDs one step (forward for odd, backward for even switches) cyclically over all switches, without ever ending the program; releases and waiting change nothing.",
     ["inputs", "histories"], "all sets of pins, busy pins, pixel counts, columns and sequences of presses of several switches at once",
     "Tests use two mocked switches and single presses.",
     ["controller/explore.py", "ui/DisplaySplitContainer.py", "ui/UiController.py"], [("ExploreModeController", "controller/explore.py")])

prop("C30", "The screen shows every value currently known, readable and in its place",
     "Areas cut from the display never overlap and leave nothing out, and each label shows its text inside its own area, wrapped to the width allowed, over its background in a text color readable on it (unless configured), in drawing order. A label bound to a parameter shows the converted value last reported, and its default text once the connection is lost; the screen chosen by a parameter is shown with everything reported since it came up, and the connection dot follows the state of the protocol within one update. If memory is short after startup, each text changed from then on is replaced by a warning.",
     ["inputs", "configurations", "histories"], "all layouts, label options, values, colors, texts and histories of reports, screen changes, connection losses and changes by the configuration's own code",
     "Tests check single labels with mocked fonts and callbacks and never change screens.",
     ["ui/elements.py", "ui/ui.py", "ui/UiController.py", "ui/layout.py", "controller/callbacks/parameter_display.py"],
     [("DisplayLabel", "ui/elements.py"), ("BidirectionalProtocolState", "ui/elements.py"), ("ParameterDisplayCallback", "controller/callbacks/parameter_display.py")])

prop("C31", "The web editor keeps what it does not change",
     "Reading inputs.py and display.py with the web editor's parser and writing them back preserves every value, unpacked argument, key and user statement, and what is set as Inputs or Splashes is what is read afterwards, with named parts stored as module-level assignments. Assignments added or replaced are always defined before they are used by others. After writing, every known name used in a file is imported exactly once (an import of the user's own wins), and no import is unused.",
     ["inputs", "histories"], "all files made of assignments, calls, lists, tuples, dicts, unpackings, names and imports, and all sequences of setting inputs, splashes and reloading",
     "No test in Python covers the parser, and those in the browser compare a few fixed files.",
     ["/web/htdocs/python/parser/PySwitchParser.py", "/web/htdocs/python/parser/misc/CodeExtractor.py", "/web/htdocs/python/parser/misc/CodeGenerator.py"],
     [("PySwitchParser", "web/htdocs/python/parser/PySwitchParser.py"), ("CodeExtractor / CodeGenerator", "web/htdocs/python/parser/misc/CodeExtractor.py")],
     ["files written by the parser"])

prop("C32", "Each ready-made Kemper parameter reads, sets and shows its own value",
     "Every parameter of the Kemper catalogue (rig, amp, cabinet, volumes, freeze, rotary, mix, fixed effects, looper, pedals, morph, tempo) is requested and set with exactly the messages of its own address, for every value, and takes over exactly the values the Profiler reports for this address, each known to all parties using it; names and comments are only requested again when the rig has changed. The ready-made encoders, pedals and displays stay within the range of their parameter and show its name, or the value in its own unit (dB, bpm, semitones, gain).",
     ["inputs", "histories"], "all parameters and combinations of them, values, users, encoder, pedal and button movements, reports and losses",
     "Tests construct the mappings only; no test sends, receives or displays a value with most of them.",
     ["clients/kemper/mappings/system.py", "clients/kemper/mappings/rig.py", "clients/kemper/mappings/amp.py", "clients/kemper/mappings/pedals.py", "clients/kemper/actions/amp.py", "clients/kemper/actions/tempo_bpm.py", "clients/kemper/actions/rig_transpose.py", "clients/kemper/callbacks/convert_volume.py"],
     [("MAPPING_RIG_VOLUME", "clients/kemper/mappings/rig.py"), ("ENCODER_BPM", "clients/kemper/actions/tempo_bpm.py"), ("convert_volume", "clients/kemper/callbacks/convert_volume.py")])

prop("C33", "Each Boomerang switch sends its two programs in turn and shows which is next",
     "Every press of a ready-made Boomerang switch sends exactly one program change, the first, third, ... press after startup the first and each other press the second of the two programs documented for its function, and nothing is sent on release. Its label always shows its text and color; its LEDs show the color bright before a first and dim before a second program, or, with several LEDs, one bright LED moving back by one with every release. This holds for any combination of switches, pages (a press counts where it was started) and options.",
     ["configurations", "histories"], "all functions, texts, colors, brightnesses, numbers of LEDs, combinations with pages and other actions, and press patterns",
     "The tests release single switches of three LEDs a few times, without pages, other actions or the main loop.",
     ["clients/boomerang/actions/boomerang.py", "clients/local/actions/rotate.py"],
     [("_BOOMERANG_ACTION", "clients/boomerang/actions/boomerang.py"), ("ROTATING_MESSAGES", "clients/local/actions/rotate.py")])

with open(OUT, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
