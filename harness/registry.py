PROPS = {
    "C01": [("c_routing", "Routing")],
    "C02": [("c_loop", "Loop")],
    "C03": [("c_switch", "Press")],
    "C04": [("c_switch", "Hold")],
    "C05": [("c_pushbutton", "PushButton")],
    "C06": [("c_requests", "Requests")],
    "C07": [("c_mapping", "Mapping")],
    "C08": [("c_kemper", "Kemper")],
    "C09": [("c_kemper", "Params")],
    "C10": [("c_panel", "Binary")],
    "C11": [("c_panel", "Paging")],
    "C12": [("c_panel", "LedSegments")],
    "C13": [("c_inputs", "Pedal")],
    "C14": [("c_inputs", "Encoder")],
    "C15": [("c_inputs", "Preselect")],
    "C16": [("c_inputs", "Preview")],
    "C17": [("c_panel", "Tuner")],
    "C18": [("c_bank", "RigSelect")],
    "C19": [("c_bank", "BankPreselect")],
    "C20": [("c_bank", "UpDown")],
    "C21": [("c_bank", "Morph")],
    "C22": [("c_values", "Tempo")],
    "C23": [("c_panel", "Slots")],
    "C24": [("c_panel", "Messages")],
    "C25": [("c_values", "UpDown")],
    "C26": [("c_tuner", "Tuner")],
    "C27": [("c_catalogue", "Catalogue")],
    "C28": [("c_board", "Board")],
    "C29": [("c_explore", "Explore")],
    "C30": [("c_display", "Display")],
    "C32": [("c_kemper", "Mappings"), ("c_inputs", "Ready")],
    "C33": [("c_boomerang", "Boomerang")],
    "C31": [("c_editor", "Editor")],
}
