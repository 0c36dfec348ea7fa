"""Which models decide which property."""
FAMILIES = {
    "faults": {"module": "MC_Faults"},
    "life": {"module": "MC_Lifecycle"},
    "modes": {"module": "MC_Lifecycle", "cfg": "Modes"},
    "env": {"module": "MC_Envelope"},
    "bodies": {"module": "MC_Content", "cfg": "Bodies"},
    "lengths": {"module": "MC_Content", "cfg": "Lengths"},
    "inject": {"module": "MC_Content", "cfg": "Inject"},
    "headers": {"module": "MC_Content", "cfg": "Headers"},
    "files": {"module": "MC_Content", "cfg": "Files"},
    "values": {"module": "MC_Values"},
    "args": {"module": "MC_Values", "cfg": "Args"},
    "config": {"module": "MC_Config"},
    "errors": {"module": "MC_Errors"},
    "neg": {"module": "MC_Negotiate"},
    "answers": {"module": "MC_Delivery", "cfg": "Answers"},
    "threads": {"module": "MC_Threads"},
    "zero": {"module": "MC_Faults", "cfg": "Zero"},
    "longwait": {"module": "MC_Faults", "cfg": "Long"},
    "highfd": {"module": "MC_Faults", "cfg": "High"},
    "signals": {"module": "MC_Signals"},
    "helpers": {"module": "MC_Helpers"},
    "target": {"module": "MC_Target"},
    "oddbytes": {"module": "MC_Delivery", "cfg": "Bytes"},
}
# Models without a replay: why the waits and the threads of the implementation are as they are
LEMMAS = {"C24": ["Threads"], "C25": ["Waiting"]}
PROPERTIES = {
    p: {"families": ["faults"]} for p in
    ["C01", "C02", "C03", "C04", "C05", "C07", "C08", "C09", "C10", "C11", "C12", "C20"]
}
for p in ["C13", "C14", "C15", "C17"]:
    PROPERTIES[p] = {"families": ["life"]}
for p in ["C09", "C10"]:
    PROPERTIES[p] = {"families": ["faults", "neg"]}
for p in ["C03", "C04"]:
    PROPERTIES[p] = {"families": ["faults", "env"]}
PROPERTIES["C05"] = {"families": ["faults", "bodies", "lengths", "files"]}
PROPERTIES["C04"] = {"families": ["faults", "env", "headers"]}
PROPERTIES["C06"] = {"families": ["inject", "args"]}
PROPERTIES["C21"] = {"families": ["files"]}
PROPERTIES["C22"] = {"families": ["answers"]}
PROPERTIES["C12"] = {"families": ["faults", "answers", "zero"]}
PROPERTIES["C13"] = {"families": ["life", "highfd"]}
PROPERTIES["C20"] = {"families": ["faults", "answers", "oddbytes", "highfd"], "flavor": "asan"}
PROPERTIES["C16"] = {"families": ["values"], "flavor": "asan"}
PROPERTIES["C23"] = {"families": ["args", "config"]}
PROPERTIES["C17"] = {"families": ["life", "config"]}
PROPERTIES["C19"] = {"families": ["errors", "faults"], "limit": {"faults": 4000}, "flavor": "asan"}
PROPERTIES["C18"] = {"families": ["faults", "env", "headers", "bodies", "files", "neg", "life", "config", "values", "args", "errors"],
                     "limit": {"faults": 2000, "env": 1200, "headers": 1500, "bodies": 300, "files": 300, "neg": 600, "life": 2000, "config": 3000, "values": 5000, "errors": 300}}
PROPERTIES["C25"] = {"families": ["signals"]}
PROPERTIES["C24"] = {"families": ["threads"], "flavor": "threads"}
PROPERTIES["C26"] = {"families": ["life", "faults", "neg", "values", "args", "config", "errors", "files", "headers"], "sc": {"repeat": 3}, "both": True,
                     "limit": {"life": 2500, "faults": 2500, "neg": 700, "values": 2500, "config": 1500, "errors": 300, "files": 200, "headers": 500}}
PROPERTIES["C27"] = {"families": ["life", "faults", "env", "files", "neg", "headers"], "sc": {"watch": True, "reuse": True}, "both": True,
                     "limit": {"life": 6000, "faults": 4000, "env": 1500, "headers": 1500, "neg": 800}}
PROPERTIES["C28"] = {"families": ["faults", "neg", "env", "headers", "bodies", "files", "config", "values", "args", "errors", "answers"], "sc": {"locale": "tr_TR.UTF-8"}, "both": True,
                     "limit": {"faults": 1500, "env": 700, "headers": 1200, "bodies": 300, "config": 1500, "values": 1500, "errors": 500, "answers": 1000}}

# Further families, sampled in the quick tier
def add(prop, **fams):
    d = PROPERTIES[prop]
    d["families"] = d["families"] + list(fams)
    d.setdefault("limit", {}).update({f: n for f, n in fams.items() if n})
add("C01", env=1500, neg=None, answers=3000, life=2500, files=None, headers=None)
add("C02", env=1500, neg=None, answers=3000, life=2500, files=None, headers=None, config=2000)
add("C03", life=2500, headers=None, files=None)
add("C04", life=2500, files=None)
add("C07", neg=None, life=2500)
add("C08", life=2500, neg=None)
add("C09", life=2500)
add("C10", life=2500, config=2000)
add("C11", neg=None, life=2500, headers=None, config=2000)
add("C13", faults=3000, config=3000)
add("C14", faults=3000, config=2000)
add("C15", faults=3000, config=2000)
add("C17", neg=None)
add("C21", env=1000, life=1000)
add("C14", modes=None)
PROPERTIES["C30"] = {"families": ["target", "life", "config"], "limit": {"life": 1500, "config": 1500}, "flavor": "asan"}
PROPERTIES["C29"] = {"families": ["helpers"], "flavor": "asan"}
add("C28", helpers=600, target=400)
add("C26", helpers=300)
add("C11", modes=1500)
add("C13", modes=1500)
add("C15", modes=1500)
add("C01", modes=1000)
add("C12", longwait=None)
add("C22", longwait=None)
