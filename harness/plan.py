"""What each check runs, per tier."""

from gen import INNER

ASSUMPTIONS = [
    "the specification states the intended behaviour (spec/*.tla)",
    "conformance is decided on the executions that were run; the bounded models on the constants in spec/mc",
]

# bounded models: property -> [(module, quick cfg or None, thorough cfg or None)]
MEMORY = ("MC_Memory", "MC_Memory_q", "MC_Memory_t")
MEMORY3 = ("MC_Memory", "MC_Memory3_q", "MC_Memory3_q")
ADDRESS = ("MC_Address", "MC_Address_q", "MC_Address_t")
BLEACH = ("MC_Bleach", "MC_Bleach_q", "MC_Bleach_t")
CLUS = ("MC_Clus", "MC_Clus_q", "MC_Clus_t")
FORMATS = ("MC_Formats", "MC_Formats_q", "MC_Formats_t")
MODELS = {
    "C01": [MEMORY, MEMORY3],
    "C02": [ADDRESS],
    "C03": [ADDRESS, MEMORY3],
    "C04": [BLEACH],
    "C05": [BLEACH],
    "C07": [MEMORY],
    "C08": [MEMORY],
    "C09": [FORMATS],
    "C16": [FORMATS],
    "C17": [FORMATS],
    "C18": [FORMATS],
    "C25": [FORMATS],
    "C11": [CLUS],
    "C12": [CLUS],
    "C13": [CLUS],
    "C14": [CLUS],
    "C19": [("MC_Synth", "MC_Synth_q", "MC_Synth_t")],
    "C20": [("MC_Canvas", "MC_Canvas_q", "MC_Canvas_t"), ("MC_Canvas", "MC_Canvas1_q", "MC_Canvas1_q")],
    "C24": [("MC_Base64", "MC_Base64_q", "MC_Base64_t")],
}

# families of generated histories (spec/mc/Histories.tla): every sequence of calls up to a length
HISTORIES = {
    "C01": "D W", "C03": "D", "C04": "W W2", "C05": "W W2", "C06": "W C", "C07": "D W", "C08": "D W C",
    "C09": "DS WS", "C10": "DS WS CS", "C11": "C C1", "C12": "C C1", "C13": "C C1", "C14": "C C1", "C15": "CS",
    "C16": "B", "C17": "S", "C18": "H", "C21": "D W C", "C22": "WC CC DC", "C23": "D W C S",
}

# all tables of votes (spec/mc/Votes.tla): labels, RAMs, largest vote, how many of them
VOTES = {
    "quick": [(3, 2, 2, 10 ** 6), (2, 3, 3, 1000), (4, 1, 3, 10 ** 6), (3, 3, 2, 500)],
    "thorough": [(3, 2, 3, 10 ** 6), (2, 3, 4, 10 ** 6), (4, 1, 5, 10 ** 6), (3, 3, 2, 10 ** 6), (4, 2, 2, 10 ** 6), (2, 4, 3, 20000)],
}

# quick and thorough numbers of random scenarios, and per-round split
QUICK = {"C24": 300, "C20": 250, "C25": 1500}
THOROUGH = {"C24": 4000, "C20": 4000}


def plan(prop, tier):
    models = []
    for module, q, t in MODELS.get(prop, []):
        c = q if tier == "quick" else (t or q)
        if c:
            models.append({"module": module, "cfg": c})
    votes = [("votes", v) for v in VOTES[tier]] if prop in ("C04", "C05") else []
    if tier == "quick":
        n = QUICK.get(prop, 700)
        fam = HISTORIES.get(prop, "").split()
        inner = [("inner", 100)] if prop in INNER else []
        inner += [("threads", 80)] if prop == "C22" else []
        rounds = [("random", 60), ("large", 8)] + inner + [ ("random", n)] + [("histories", (f, 4, 600 // len(fam))) for f in fam] + votes
        return {"models": models, "rounds": rounds, "budget": 240, "model_timeout": 300, "corrupt": 24}
    n = THOROUGH.get(prop, 12000)
    step = 1500
    fam = HISTORIES.get(prop, "").split()
    rounds = [("random", 60), ("large", 60)] + ([("inner", 1500)] if prop in INNER else []) + ([("threads", 1000)] if prop == "C22" else []) + [("histories", (f, 4, 10 ** 6)) for f in fam] + votes + \
        [("random", min(step, n - k)) for k in range(0, n, step)] + [("histories", (f, 5, 12000 // len(fam))) for f in fam]
    return {"models": models, "rounds": rounds, "budget": 2400, "model_timeout": 3000, "corrupt": 100}
