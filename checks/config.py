"""What each registered check runs: number of generated cases (calls) per tier, module and runner."""
CHECKS = {
    "C15": {"n": {"quick": 2400, "thorough": 20000}},
    "C16": {"n": {"quick": 2200, "thorough": 12000}},
    "C13": {"n": {"quick": 6000, "thorough": 25000}},
    "C14": {"n": {"quick": 6000, "thorough": 25000}},
    "C17": {"n": {"quick": 2400, "thorough": 12000}},
    "C18": {"n": {"quick": 2400, "thorough": 12000}},
    "C19": {"n": {"quick": 3000, "thorough": 20000}},
    "C20": {"n": {"quick": 2800, "thorough": 10000}},
    "C22": {"n": {"quick": 2400, "thorough": 15000}},
    "C23": {"n": {"quick": 1200, "thorough": 8000}},
    "C01": {"kind": "store", "n": {"quick": 300, "thorough": 2000}, "mc": {"quick": 3, "thorough": 4}, "ops": {"quick": 14, "thorough": 20}},
    "C02": {"kind": "store", "n": {"quick": 300, "thorough": 2000}, "mc": {"quick": 3, "thorough": 4}, "ops": {"quick": 14, "thorough": 20}},
    "C03": {"kind": "store", "n": {"quick": 225, "thorough": 1500}, "mc": {"quick": 3, "thorough": 4}, "ops": {"quick": 14, "thorough": 20}},
    "C04": {"kind": "store", "n": {"quick": 300, "thorough": 2000}, "mc": {"quick": 3, "thorough": 4}, "ops": {"quick": 14, "thorough": 20}},
    "C05": {"kind": "store", "n": {"quick": 300, "thorough": 2000}, "mc": {"quick": 3, "thorough": 4}, "ops": {"quick": 14, "thorough": 20}},
    "C06": {"kind": "store", "n": {"quick": 300, "thorough": 2000}, "mc": {"quick": 3, "thorough": 4}, "ops": {"quick": 14, "thorough": 20}},
    "C07": {"kind": "store", "n": {"quick": 300, "thorough": 2000}, "mc": {"quick": 3, "thorough": 4}, "ops": {"quick": 14, "thorough": 20}},
    "C08": {"kind": "store", "n": {"quick": 300, "thorough": 2000}, "mc": {"quick": 3, "thorough": 4}, "ops": {"quick": 14, "thorough": 20}},
    "C09": {"kind": "store", "n": {"quick": 300, "thorough": 2000}, "mc": {"quick": 3, "thorough": 4}, "ops": {"quick": 14, "thorough": 20}},
    "C10": {"kind": "store", "n": {"quick": 525, "thorough": 3000}, "mc": {"quick": 3, "thorough": 4}, "ops": {"quick": 14, "thorough": 20}},
    "C11": {"kind": "store", "n": {"quick": 300, "thorough": 2000}, "mc": {"quick": 3, "thorough": 4}, "ops": {"quick": 14, "thorough": 20}},
    "C12": {"kind": "store", "n": {"quick": 300, "thorough": 2000}, "mc": {"quick": 3, "thorough": 4}, "ops": {"quick": 14, "thorough": 20}},
    "C28": {"kind": "store", "n": {"quick": 300, "thorough": 2000}, "mc": {"quick": 3, "thorough": 4}, "ops": {"quick": 14, "thorough": 20}},
    "C29": {"kind": "machine", "machine": "LogStore", "n": {"quick": 900, "thorough": 3000}, "mc": {"quick": 5, "thorough": 6}, "ops": {"quick": 12, "thorough": 16},
            "small": {"Levels": "{10, 20, 30, 40}", "MaxUser": 2, "Own": '{"past"}'},
            "big": {"Levels": "{10, 20, 25, 30, 35, 40, 50}", "MaxUser": 3, "Own": '{"past", "near", "random", "nosnr", "cutoff"}'},
            "invariants": ["AtMostOne", "Visible", "NeverTwice", "RootFree", "Suppressed", "Folded"], "properties": ["ImportIdle", "UserKept"]},
    "C21": {"n": {"quick": 6000, "thorough": 40000}},
    "C25": {"n": {"quick": 2400, "thorough": 12000}},
    "C27": {"n": {"quick": 4400, "thorough": 12000}},
    "C26": {"n": {"quick": 3000, "thorough": 15000}},
    "C24": {"n": {"quick": 3000, "thorough": 15000}},
    "C30": {"n": {"quick": 400, "thorough": 4000}},
    "C31": {"n": {"quick": 1500, "thorough": 12000}},
}
