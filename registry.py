"""which contract modules decide which property"""
PROPS = {
    "C01": ["lev"],
    "C02": ["lcs"],
    "C03": ["align"],
    "C04": ["align"],
    "C05": ["ngram"],
    "C06": ["similar"],
    "C07": ["rouge"],
    "C08": ["tfidf"],
    "C09": ["median"],
    "C10": ["pair"],
    "C11": ["ograph"],
    "C12": ["daesograph", "ograph"],
    "C13": ["graphpair"],
    "C14": ["graphpair"],
    "C15": ["corpus"],
    "C16": ["corpus", "graphbank", "pgcxml"],
    "C17": ["pgcxml"],
    "C18": ["loading", "graphbank"],
    "C19": ["graphml"],
    "C20": ["aligneval"],
    "C21": ["agreement"],
    "C22": ["stats"],
    "C23": ["diff"],
    "C24": ["ielem", "hdoc"],
    "C25": ["textalign"],
    "C26": ["ptceval"],
    "C27": ["creation", "loading", "graphbank"],
    "C28": ["scripts"],
    "C29": ["scripts"],
    "C30": ["scripts"],
}
# contracts of other modules that may be used at call sites
USES = {}
# how a property is decided, when not (mainly) by proof
LEVELS = {}
