"""property id -> (spec module, attribute)"""
PROPS = {
    "P01": ("sqlite", "P01"), "P02": ("sqlite", "P02"), "P04": ("sqlite", "P04"), "P05": ("cache", "P05"),
    "P03": ("node", "P03"), "P06": ("node", "P06"), "P07": ("node", "P07"), "P08": ("node", "P08"), "P09": ("node", "P09"), "P10": ("node", "P10"), "P11": ("node", "P11"),
    "P14": ("queue", "P14"), "P15": ("ratelimit", "P15"),
    "P12": ("core", "P12"), "P13": ("core", "P13"),
    "P16": ("server", "P16"),
    "P20": ("pool", "P20"),
    "P17": ("control", "P17"), "P18": ("control", "P18"), "P19": ("control", "P19"),
}
