"""Which programs and which invariants decide each property."""


def q(quick, thorough):
    return {"quick": quick, "thorough": thorough}


def mc(name, workers=4):
    """A model: all behaviours within bounds, checked on their own; where the
    model prints programs, these are run on the library and judged as well."""
    return {"name": name, "module": name + ".tla", "cfg": name + ".cfg",
            "thorough_cfg": name + "-thorough.cfg", "workers": workers}


CHECKS = {
    "C01": {
        "models": [mc("MCDocument")],
        "families": {"histories": q(300, 3000), "renumbered-docs": q(400, 4000), "docs-table": q(1200, 20000), "sparse": q(40, 400), "big": q(8, 40), "huge": q(2, 12)},
        "invariants": ["XrefTableFinds", "FileBody"],
    },
    "C02": {
        "models": [mc("MCXref"), mc("MCDocument")],
        "families": {"histories": q(250, 2500), "renumbered-docs": q(200, 4000), "docs": q(1200, 20000), "sparse": q(40, 400), "huge": q(3, 16)},
        "invariants": ["FreeList"],
    },
    "C03": {
        "models": [mc("MCXref"), mc("MCDocument")],
        "families": {"histories": q(400, 4000), "dups": q(2000, 20000), "huge-dups": q(8, 16)},
        "invariants": [],
    },
    "C04": {
        "models": [mc("MCDocument")],
        "families": {"histories": q(250, 2500), "renumbered-docs": q(300, 4000), "docs-stream": q(1200, 20000), "sparse": q(40, 400), "big": q(8, 40), "huge-stream": q(3, 16)},
        "invariants": ["XrefStreamFinds", "XrefFilters", "FreeList"],
    },
    "C05": {
        "models": [mc("MCSyntax")],
        "families": {"large-objects": q(60, 60), "objects": q(4000, 40000)},
        "invariants": ["Objects"],
    },
    "C06": {
        "models": [mc("MCStrings")],
        "families": {"large-strings": q(96, 96), "parens": q(120, 480), "giant-strings": q(12, 36), "strings": q(1000, 10000)},
        "invariants": ["Objects"],
    },
    "C07": {
        "families": {"large-strings": q(96, 96), "giant-strings": q(12, 36), "texts": q(1000, 10000)},
        "invariants": ["Objects"],
    },
    "C08": {
        "families": {"numbers": q(1000, 10000)},
        "invariants": ["Objects"],
    },
    "C09": {
        "families": {"large-streams": q(22, 22), "streams": q(2000, 20000)},
        "invariants": ["Objects"],
    },
    "C11": {
        "models": [mc("MCAssembly")],
        "families": {"histories": q(400, 4000), "large-strings": q(96, 96), "giant-strings": q(24, 36), "doubling": q(3, 5), "large-objects": q(24, 60), "limits": q(2000, 20000), "content": q(1500, 15000), "api-all": q(1500, 15000)},
        "invariants": ["LimitsReported", "ContentLimits"],
    },
    "C12": {
        "models": [mc("MCRenumber")],
        "families": {"api-all+renumber": q(820, 8200), "histories": q(300, 3000), "renumber": q(2000, 20000), "doubling-renumber": q(3, 10), "large-renumber": q(6, 60)},
        "invariants": ["Objects", "RefsReported"],
    },
    "C13": {
        "models": [mc("MCAssembly")],
        "families": {"histories": q(400, 4000), "assembly": q(2000, 20000), "doubling": q(3, 10)},
        "invariants": ["Objects", "RefsReported"],
    },
    "C14": {
        "models": [mc("MCSyntax")],
        "families": {"twins": q(1500, 15000), "api-twins": q(1500, 15000), "content-twins": q(1000, 10000)},
        "invariants": ["StylesAgree", "ContentStylesAgree"],
    },
    "C15": {
        "models": [mc("MCTrailer")],
        "families": {"histories": q(300, 3000), "trailers": q(2000, 20000), "sparse": q(40, 400)},
        "invariants": ["FileHeader", "Trailer"],
    },
    "C16": {
        "families": {"dates": q(1000, 10000)},
        "invariants": ["Objects"],
    },
    "C30": {
        "families": {"same": q(2000, 20000), "api-same": q(1500, 15000), "content-same": q(1000, 10000)},
        "invariants": ["Deterministic", "ContentDeterministic"],
    },

    # Content streams.
    "C10": {
        "models": [mc("MCOperands")],
        "families": {"content": q(2500, 25000), "content-pairs": q(240, 960), "content-context": q(100, 1000), "content-known": q(100, 300)},
        "invariants": ["Operations"],
    },
    "C26": {
        "families": {"marks": q(2500, 25000), "api-marks": q(800, 8000), "api-marks+many": q(18, 54), "api-marks+walk": q(36, 360), "api-marks+values": q(100, 400), "api-marks+pairs": q(100, 400), "api-marks+known": q(24, 96), "api-marks+context": q(8, 80)},
        "invariants": ["Operations", "Objects"],
    },
    "C29": {
        "models": [mc("MCState")],
        "families": {"state": q(3000, 30000)},
        "invariants": ["Operations"],
    },
    # Typed writers.
    "C17": {
        "families": {"api-document": q(3000, 30000), "api-document+enums": q(600, 6000), "api-document+many": q(132, 396), "api-document+walk": q(132, 2640), "api-document+values": q(300, 1200), "api-document+pairs": q(300, 1200), "api-document+known": q(112, 448), "api-document+context": q(17, 170)},
        "invariants": ["Objects", "RefsReported"],
    },
    "C18": {
        "families": {"api-interactive": q(3000, 30000), "api-interactive+enums": q(600, 6000), "api-interactive+many": q(145, 435), "api-interactive+walk": q(145, 2900), "api-interactive+values": q(300, 1200), "api-interactive+pairs": q(300, 1200), "api-interactive+known": q(162, 648), "api-interactive+context": q(24, 240)},
        "invariants": ["Objects", "RefsReported"],
    },
    "C19": {
        "families": {"api-forms": q(3000, 30000), "api-forms+enums": q(600, 6000), "api-forms+many": q(78, 234), "api-forms+walk": q(156, 1560), "api-forms+values": q(300, 1200), "api-forms+pairs": q(300, 1200), "api-forms+known": q(102, 408), "api-forms+context": q(18, 180)},
        "invariants": ["Objects", "RefsReported"],
    },
    "C20": {
        "families": {"api-graphics": q(3000, 30000), "api-graphics+enums": q(600, 6000), "api-graphics+many": q(254, 762), "api-graphics+walk": q(254, 5080), "api-graphics+values": q(300, 1200), "api-graphics+pairs": q(300, 1200), "api-graphics+known": q(162, 648), "api-graphics+context": q(40, 400)},
        "invariants": ["Objects", "RefsReported"],
    },
    "C21": {
        "families": {"api-fonts": q(3000, 30000), "api-fonts+enums": q(600, 6000), "api-fonts+many": q(82, 246), "api-fonts+walk": q(164, 1640), "api-fonts+values": q(300, 1200), "api-fonts+pairs": q(300, 1200), "api-fonts+known": q(76, 304), "api-fonts+context": q(12, 120)},
        "invariants": ["Objects", "RefsReported"],
    },
    "C22": {
        "families": {"api-logical": q(3000, 30000), "api-logical+enums": q(600, 6000), "api-logical+many": q(133, 399), "api-logical+walk": q(133, 2660), "api-logical+values": q(300, 1200), "api-logical+pairs": q(300, 1200), "api-logical+known": q(128, 512), "api-logical+context": q(28, 112)},
        "invariants": ["Objects", "RefsReported"],
    },
    "C27": {
        "families": {"api-trees": q(3000, 30000), "api-trees+many": q(43, 129), "api-trees+walk": q(86, 860), "api-trees+values": q(100, 400), "api-trees+pairs": q(100, 400), "api-trees+known": q(40, 160), "api-trees+context": q(2, 20)},
        "invariants": ["Objects", "RefsReported"],
    },
    "C32": {
        "families": {"api-color": q(3000, 30000), "api-color+many": q(51, 153), "api-color+walk": q(102, 1020), "api-color+values": q(200, 800), "api-color+pairs": q(200, 800), "api-color+known": q(34, 136), "api-color+context": q(6, 60)},
        "invariants": ["Objects", "RefsReported"],
    },
    "C28": {
        "families": {"api-all+enums": q(3500, 30000), "content": q(1000, 10000), "headings": q(8, 8)},
        "invariants": ["Objects", "Operations", "Functions_"],
    },
    # Character maps, calculator functions, roles.
    "C23": {
        "families": {"cmaps": q(1500, 15000)},
        "invariants": ["CharacterMap"],
    },
    "C24": {
        "families": {"calculator": q(6000, 60000), "api-graphics": q(500, 5000)},
        "invariants": ["Calculator", "Objects"],
    },
    "C31": {
        "families": {"roles": q(800, 8000), "headings": q(256, 256), "api-logical+enums": q(600, 6000)},
        "invariants": ["Functions_", "Objects"],
    },
    # Refusals: decided by the executions the machine allows.
    "C25": {
        "families": {"histories": q(300, 3000), "api-all+tries": q(2500, 25000), "api-all": q(1500, 15000), "content": q(1000, 10000),
                     "functions": q(1500, 15000), "objects": q(500, 5000), "dups": q(300, 3000),
                     "cmaps": q(300, 3000), "calculator": q(500, 5000), "roles": q(100, 1000),
                     "large-objects": q(30, 60), "large-strings": q(96, 96), "giant-strings": q(12, 36), "doubling": q(2, 5), "huge-dups": q(2, 16), "large-streams": q(11, 22),
                     "strings": q(100, 1000), "texts": q(100, 1000), "numbers": q(100, 1000), "dates": q(100, 1000),
                     "streams": q(300, 3000), "docs": q(300, 3000), "sparse": q(20, 200), "trailers": q(200, 2000),
                     "limits": q(300, 3000), "assembly": q(300, 3000), "renumber": q(500, 5000),
                     "marks": q(300, 3000), "state": q(600, 6000), "content-pairs": q(80, 240), "content-context": q(100, 300),
                     "api-all+values": q(820, 1640), "api-all+many": q(407, 2442), "api-all+walk": q(407, 8140), "api-all+known": q(363, 2904),
                     "api-all+context": q(132, 660), "content-known": q(80, 300)},
        "invariants": ["Functions_"],
    },
}
