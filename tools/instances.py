"""Bounded instances of the specification, by property."""

# depth of nesting at which the library is known to exhaust an 8 MB stack (known-findings.md)
KNOWN_DEEP = [("coll", 20000)]

ALL_STEPS = ["InvTiles", "InvPosition", "InvKinds", "InvCovers", "InvOpen", "InvResume", "InvFrames"]


def text(chunks, q, t, inv, prefix="None", suffix="None", props=(), workers=4):
    """every text of up to q (quick) or t (thorough) of these chunks between a prefix and a suffix"""
    return {"module": "MC", "name": "every text of %s" % chunks, "chunks": chunks, "max": {"quick": q, "thorough": t}, "prefix": prefix, "suffix": suffix,
            "invariants": list(inv), "properties": list(props), "emits": True, "workers": workers, "timeout": {"quick": 300, "thorough": 5400}}


def silent(i):
    """checked on the specification only"""
    i["emits"] = False
    return i


def walks(chunks, n, q, t, inv, prefix="None", suffix="None"):
    """random behaviours over texts of about n chunks"""
    i = text(chunks, n, n, inv, prefix, suffix)
    i.update(name="random texts of about %d of %s" % (n, chunks), simulate={"quick": q, "thorough": t})
    return i


def streams(kinds, mode, q, t, inv=("InvFails", "Inv05", "Inv04", "InvDepth")):
    return {"module": "Streams", "name": "every %s stream of %s" % (mode, kinds), "kinds": kinds, "mode": mode, "max": {"quick": q, "thorough": t},
            "invariants": list(inv), "properties": ["Sticky"], "emits": True, "workers": 4, "timeout": {"quick": 300, "thorough": 5400}}


def pairs(parts, a, b, inv=("Inv22", "InvBlocks", "InvInside")):
    return {"module": "Pairs", "name": "every pair of texts of %s" % parts, "parts": parts, "a": {"quick": a[0], "thorough": a[1]},
            "b": {"quick": b[0], "thorough": b[1]}, "invariants": list(inv), "emits": True, "workers": 4,
            "timeout": {"quick": 300, "thorough": 5400}}


def trees(kinds, inls, pieces, q, t, inv=("Inv19", "Inv18")):
    return {"module": "Trees", "name": "every tree of %s, %s, %s" % (kinds, inls, pieces), "kinds": kinds, "inls": inls, "pieces": pieces,
            "max": {"quick": q, "thorough": t}, "invariants": list(inv), "emits": True, "workers": 4, "timeout": {"quick": 300, "thorough": 5400}}


def contents(chunks, size, picks):
    return {"module": "Contents", "name": "every content of tokens of %s" % chunks, "chunks": chunks, "max": {"quick": size[0], "thorough": size[1]},
            "picks": {"quick": picks[0], "thorough": picks[1]}, "invariants": ["Inv25"], "properties": ["Grows"], "emits": True, "workers": 4,
            "timeout": {"quick": 300, "thorough": 5400}}


def calls(texts, n, q, t):
    return {"module": "Calls", "name": "every history of %d callers on %s" % (n, texts), "texts": texts, "callers": n, "max": {"quick": q, "thorough": t},
            "invariants": ["Inv21", "InvAlone"], "properties": ["Alone"], "emits": True, "workers": 4, "timeout": {"quick": 300, "thorough": 5400}}


def cfg(i, tier):
    m = i["module"]
    sim = i.get("simulate")
    l = ["SPECIFICATION " + ("LongSpec" if sim else "Spec"), "CHECK_DEADLOCK FALSE", "CONSTANTS"]
    if m == "MC":
        l += [" Chunks <- " + i["chunks"], " MaxChunks = %d" % i["max"][tier], " Prefix <- " + i["prefix"], " Suffixes <- " + i["suffix"]]
    elif m == "Streams":
        l += [" Kinds <- " + i["kinds"], ' Mode = "%s"' % i["mode"], " MaxLen = %d" % i["max"][tier]]
    elif m == "Pairs":
        l += [" Parts <- " + i["parts"], " MaxA = %d" % i["a"][tier], " MaxB = %d" % i["b"][tier]]
    elif m == "Trees":
        l += [" Kinds <- " + i["kinds"], " Inls <- " + i["inls"], " Pieces <- " + i["pieces"], " MaxSteps = %d" % i["max"][tier]]
    elif m == "Contents":
        l += [" Chunks <- " + i["chunks"], " MaxChunks = %d" % i["max"][tier], " MaxPicks = %d" % i["picks"][tier]]
    elif m == "Calls":
        l += [" Callers = %d" % i["callers"], " Texts <- " + i["texts"], " MaxSteps = %d" % i["max"][tier]]
    l += ["INVARIANTS " + " ".join(i["invariants"] + (["Emit"] if i["emits"] else []))]
    if i.get("properties"):
        l += ["PROPERTIES " + " ".join(i["properties"])]
    if m == "Trees":
        l += ["VIEW View1"]
    if not sim and not i.get("live"):
        l += ["ACTION_CONSTRAINT Count", "POSTCONDITION Counted"]
    return "\n".join(l) + "\n"


def of(p, tier):
    C, H, K = ("Open_coll", "Close_coll"), ("Open_high", "Close_high"), ("Open_code", "None")
    one = {
        "C01": [text("Chunks_any", 3, 4, ["Inv01"], *C, props=["Progress"]), walks("Chunks_nest", 14, 1500, 20000, ["Inv01"])],
        "C02": [text("Chunks_any", 3, 4, ["InvCovers", "Inv02"], *C), text("Chunks_esc", 4, 5, ["Inv02"]),
                walks("Chunks_eol", 14, 1500, 20000, ["InvCovers", "Inv02"])],
        "C03": [text("Chunks_nest", 4, 5, ["InvOpen", "InvResume", "Inv03"]), text("Chunks_any", 3, 4, ["Inv03"], *C),
                walks("Chunks_any", 14, 1500, 20000, ["InvOpen", "Inv03"])],
        "C04": [text("Chunks_any", 3, 4, ["InvFrames", "Inv04"], *C), walks("Chunks_nest", 14, 1500, 20000, ["InvFrames", "Inv04"]),
                streams("Kinds_line", "grammar", 7, 9), streams("Kinds_list", "grammar", 8, 10), streams("Kinds_block", "grammar", 7, 9),
                streams("Kinds_part", "grammar", 7, 9), streams("Kinds_rest", "grammar", 7, 9)],
        "C05": [streams("Kinds_all", "any", 2, 3), streams("Kinds_line", "any", 4, 5), streams("Kinds_block", "any", 4, 5), streams("Kinds_list", "any", 4, 5),
                streams("Kinds_part", "nested", 5, 6), streams("Kinds_rest", "nested", 5, 6), silent(text("Chunks_any", 3, 4, ["Inv05", "InvFrames"]))],
        "C06": [text("Chunks_lex", 4, 5, ["InvTiles", "Inv06"]), text("Chunks_mark", 3, 4, ["InvTiles", "Inv06"]),
                walks("Chunks_lex", 20, 1500, 20000, ["InvTiles", "Inv06"])],
        "C07": [text("Chunks_lex", 4, 5, ["InvKinds", "Inv07"]), text("Chunks_mark", 3, 4, ["InvKinds", "Inv07"]),
                walks("Chunks_mark", 20, 1500, 20000, ["InvKinds", "Inv07"])],
        "C08": [text("Chunks_lex", 4, 5, ["InvPosition", "Inv08"]), text("Chunks_mark", 3, 4, ["InvTiles", "InvPosition", "Inv08"]),
                walks("Chunks_lex", 20, 1500, 20000, ["InvPosition", "Inv08"])],
        "C09": [text("Chunks_esc", 4, 5, ["Inv09", "Inv09f"]), text("Chunks_any", 3, 4, ["Inv09", "Inv09f"]),
                walks("Chunks_esc", 12, 1500, 20000, ["Inv09"])],
        "C10": [text("Chunks_in", 4, 6, ["Inv10"]), text("Chunks_in", 3, 4, ["Inv10"], *C), walks("Chunks_in", 12, 1500, 20000, ["Inv10"])],
        "C11": [text("Chunks_link", 4, 6, ["Inv11"], "Open_link"), text("Chunks_link", 3, 4, ["Inv11"], *C), walks("Chunks_link", 12, 1500, 20000, ["Inv11"])],
        "C12": [text("Chunks_line", 3, 4, ["Inv12"], *C), text("Chunks_line", 4, 5, ["Inv12"], "Open_line"), walks("Chunks_line", 10, 1500, 20000, ["Inv12"])],
        "C13": [text("Chunks_code", 4, 5, ["Inv13"], *K), text("Chunks_code", 3, 4, ["Inv13"], *C), walks("Chunks_code", 10, 1500, 20000, ["Inv13"], *C)],
        "C14": [text("Chunks_list", 4, 6, ["Inv14"], "Open_list"), text("Chunks_list", 4, 5, ["Inv14"], *C), walks("Chunks_list", 16, 1500, 20000, ["Inv14"], "Open_list")],
        "C15": [text("Chunks_high", 4, 6, ["Inv15"], *H), text("Chunks_high", 3, 4, ["Inv15"], *C), walks("Chunks_high", 12, 1500, 20000, ["Inv15"], *H)],
        "C16": [text("Chunks_coll", 4, 6, ["InvOpen", "InvResume", "Inv16"], *C), text("Chunks_nest", 3, 5, ["Inv16"], *C),
                walks("Chunks_coll", 14, 1500, 20000, ["InvResume", "Inv16"], *C)],
        "C17": [text("Chunks_meta", 5, 6, ["Inv17"]), text("Chunks_meta", 3, 4, ["Inv17"], "Open_meta"), walks("Chunks_meta", 10, 1500, 20000, ["Inv17"], "Open_meta")],
        "C18": [text("Chunks_any", 3, 4, ["Inv18"], *C), text("Chunks_rule", 4, 5, ["Inv18"]), walks("Chunks_nest", 12, 1500, 20000, ["Inv18"]),
                trees("Kinds_all", "Inls_few", "Pieces_line", 3, 4, ["Inv18"])],
        "C19": [trees("Kinds_all", "Inls_all", "Pieces_line", 3, 4), trees("Kinds_text", "Inls_text", "Pieces_line", 4, 5),
                trees("Kinds_raw", "Inls_text", "Pieces_raw", 4, 5), trees("Kinds_text", "Inls_all", "Pieces_mark", 3, 4),
                trees("Kinds_all", "Inls_text", "Pieces_block", 3, 4), trees("Kinds_nest", "Inls_text", "Pieces_line", 3, 5),
                text("Chunks_any", 2, 3, ["Inv19"], *C)],
        "C20": [text("Chunks_any", 3, 4, ["Inv20"], *C), text("Chunks_rule", 3, 4, ["Inv20"]), trees("Kinds_all", "Inls_all", "Pieces_raw", 3, 4, ["Inv20"]),
                trees("Kinds_nest", "Inls_few", "Pieces_line", 3, 4, ["Inv20"])],
        "C21": [calls("Texts_two", 2, 4, 5), calls("Texts_mixed", 2, 3, 4), calls("Texts_block", 3, 3, 4), text("Chunks_esc", 4, 5, ["Inv21"])],
        "C22": [pairs("Parts_mix", (2, 3), (1, 2)), pairs("Parts_whole", (2, 3), (1, 2))],
        "C23": [text("Chunks_eol", 3, 4, ["Inv23"], *C), text("Chunks_list", 4, 5, ["Inv23"], "Open_list"), walks("Chunks_eol", 12, 1500, 20000, ["Inv23"])],
        "C24": [text("Chunks_rule", 4, 5, ["Inv24"]), text("Chunks_any", 3, 4, ["Inv24"], *C), walks("Chunks_nest", 14, 1500, 20000, ["Inv24"])],
        "C25": [contents("Chunks_content", (4, 5), (3, 4)), contents("Chunks_parts", (3, 4), (3, 4))],
        "C26": [trees("Kinds_all", "Inls_few", "Pieces_line", 3, 4, ["Inv26"]), trees("Kinds_raw", "Inls_text", "Pieces_raw", 3, 4, ["Inv26"]),
                trees("Kinds_text", "Inls_all", "Pieces_mark", 3, 4, ["Inv26"]), trees("Kinds_nest", "Inls_text", "Pieces_line", 3, 5, ["Inv26"]),
                text("Chunks_any", 2, 3, ["Inv26"], *C)],
        "C27": [text("Chunks_lex", 4, 5, ["InvTiles", "InvCut", "Inv27"]), text("Chunks_mark", 3, 4, ["InvCut", "Inv27"]),
                walks("Chunks_mark", 14, 1000, 10000, ["InvCut", "Inv27"])],
        "C28": [pairs("Parts_mix", (2, 3), (1, 2), ["Inv28", "InvEvents"]), pairs("Parts_whole", (2, 3), (1, 2), ["Inv28", "InvEvents"])],
        "C30": [text("Chunks_plain", 3, 4, ["Inv30"]), text("Chunks_any", 3, 4, ["Inv30"], *C), walks("Chunks_plain", 12, 1000, 10000, ["Inv30"])],
        "C31": [text("Chunks_any", 3, 4, ["Inv31"], *C), text("Chunks_rule", 3, 4, ["Inv31"]), walks("Chunks_nest", 12, 1000, 10000, ["Inv31"])],
        "C32": [text("Chunks_plain", 3, 4, ["Inv32"]), text("Chunks_any", 3, 4, ["Inv32"], *C), walks("Chunks_any", 12, 1000, 10000, ["Inv32"])],
        "C33": [text("Chunks_dash", 3, 4, ["Inv33"]), text("Chunks_list", 4, 5, ["Inv33"], "Open_list"), walks("Chunks_dash", 14, 1000, 10000, ["Inv33"])],
        "C29": [text("Chunks_row", 3, 4, ["Inv29"]), text("Chunks_in", 4, 5, ["Inv29"]), walks("Chunks_row", 10, 1000, 10000, ["Inv29"])],
    }[p]
    if tier == "thorough" and p == "C01":
        live = text("Chunks_any", 2, 2, ["Inv01"] + ALL_STEPS, *C, props=["Terminates"])
        live.update(name="every fair behaviour ends (Chunks_any)", live=True)
        one.append(live)
    if tier == "thorough" and p[1:] not in ("05", "19", "20", "21", "22", "25", "28"):
        one.append(walks("Chunks_any", 30, 4000, 4000, ["Inv" + p[1:]]))
    return one


def assumptions(p):
    return ["the harness reads the public results of the library (tokens, events, trees, printed text, JSON) faithfully",
            "the native form of the specification, generated from the TLA+ modules by tools/tla2rust.py, computes what TLC computes; it is compared with TLC "
            "on every behaviour replayed and every sample validated, and TLC has the last word on every violation",
            "texts beyond the explored bounds behave as those within them"]
