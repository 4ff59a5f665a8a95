"""A copy of the package whose data files were made up: same formats, other content.

The loaders and everything built on them have to carry whatever is stored, so
the shipped files are only one case."""
import json
import random
import shutil

import core
import flat

LEVELS8 = (None, 0, 1, 2, 50, 99, 100, 101, 127, -1, -128, 1 << 30, -(1 << 31))
MULTS = (None, 0, 0x3F800000, 0xBF800000, 0xBF800000, 0x40000000, 0x3F99999A, 0x80000000, 0xBF000000, 0x00000001, 0x42C80000)


def some(r, fields, p=0.7):
    return {k: v for k, v in fields.items() if r.random() < p}


def mults(r, first):
    drawn = {first + i: r.choice(MULTS) for i in range(12)}
    return {k: ("f32", v) for k, v in drawn.items() if v is not None}


def kinds8(r):
    """species and forms; some share the species, some the form"""
    out = {(species, form) for species in r.sample(range(1, 1000), 14) for form in r.sample(range(0, 30), r.choice((1, 1, 2, 3)))}
    out |= {(899, 0), (1, 255), (65535, 1), (200, 0), (0, 3), (1, 0), (0, 1)}
    return sorted(out)


def arceus(r, folder):
    kinds = kinds8(r)
    # a row per kind, in any order
    rows = []
    for species, form in r.sample(kinds, len(kinds)):
        rows.append({0: ("i32", species), **({1: ("i32", form)} if form or r.random() < 0.5 else {}), **mults(r, 2)})
    (folder / "poke_encount.bin").write_bytes(bytes(flat.write(r, {0: rows})))
    rows = []
    for species, form in r.sample(kinds, len(kinds)):
        rows.append({0: ("i32", species), **({1: ("i32", form)} if form or r.random() < 0.5 else {}), 6: ("i32", r.randrange(1, 6)),
                     **some(r, {i: ("i32", r.randrange(100)) for i in (2, 3, 4, 5, 7, 8, 9)})})
    (folder / "poke_misc.bin").write_bytes(bytes(flat.write(r, {0: rows})))
    for area in range(1, 6):
        tables = []
        for number in range(24):
            slots = []
            for _ in range(r.choice((0, 1, 1, 2, 3, 5, 9))):
                species, form = r.choice(kinds)
                slot = {0: ("i32", species), 29: ("i32", r.choice((0, 1, 50, 100, 255, 256, 300, 70000, (1 << 31) - 1))),
                        45: {**some(r, {i: ("i32", r.randrange(9)) for i in range(7)}), **mults(r, 7)},
                        46: some(r, {i: ("i8", r.choice((0, 0, 1))) for i in range(4)})}
                slot.update(some(r, {2: ("i32", r.choice((-1, 0, 1, 2, 3)))}))
                if form or r.random() < 0.5:
                    slot[3] = ("i32", form)
                slot.update(some(r, {25: ("i32", r.choice((0, 1, 3, 6)))}))
                for f in (30, 31):
                    level = r.choice(LEVELS8)
                    if level is not None:
                        slot[f] = ("i32", level)
                slot.update(some(r, {i: ("i32", r.getrandbits(16)) for i in (*range(4, 25), 1, 26, 27, 28, *range(32, 45))}, 0.4))
                slots.append(slot)
            ident = r.choice((number, r.getrandbits(64), 1 << 63 | number, number << 32 | 1))
            table = {0: ("u64", ident), 1: ("i32", r.choice((1, 2, 70, 100, r.randrange(1, 101)))), 2: ("i32", r.choice((1, 80, 99, 100, r.randrange(1, 101))))}
            if slots or r.random() < 0.5:
                table[3] = slots
            tables.append(table)
        # identifiers are distinct
        tables = list({t[0]: t for t in tables}.values())
        r.shuffle(tables)
        (folder / f"ha_area{area:02d}_encounter.bin").write_bytes(bytes(flat.write(r, {0: tables})))


TAGS = {"rs": ("Ruby", "Sapphire"), "e": ("",), "frlg": ("FireRed", "LeafGreen")}
SETS = {"land_mons": 12, "water_mons": 5, "rock_smash_mons": 5, "fishing_mons": 10}
CHAMBERS = [f"MAP_SEVEN_ISLAND_TANOBY_RUINS_{x}_CHAMBER" for x in "MONEAN LIPTOO WEEPTH DILFORD SCUFIB RIXY VIAPOIS".split()]
LEFT_OUT = {"rs": (), "e": [f"gAlteringCave{i}" for i in (1, 2, 5, 8, 9)], "frlg": [f"sIslandAlteringCave{i}" for i in ("", "_2", "_5", "_8", "_9")]}
WORDS = "ROUTE1 ROUTE104 ROUTE ROOM1 ROOM12 ROOM B1F B12F 1F 12F 3R 12R CAVE MT ISLAND VICTORY 2 A BF F1".split()


def gen3(r, folder, species):
    for name, tags in TAGS.items():
        path = folder / f"{name}_wild_encounters.json"
        tree = json.loads(path.read_text(encoding="utf-8"))
        maps = [e["map"] for e in tree["wild_encounter_groups"][0]["encounters"]]
        entries = []
        for number in range(70):
            place = r.choice((f"Place{number}", f"gPlace{number}", f"gRoute{number}", f"sCave{number}_B1F"))
            if r.random() < 0.25:
                # the forms in which the games' files name what is left out
                place = r.choice(("gCave_UnusedMap1", "gUnusedMap2", *LEFT_OUT[name]))
            tag = r.choice(tags)
            entry = {"map": r.choice((r.choice(maps), r.choice(CHAMBERS), "MAP_" + "_".join(r.choice(WORDS) for _ in range(r.randrange(1, 5))))),
                     "base_label": f"{place}_{tag}" if tag else place}
            for kind, count in r.sample(list(SETS.items()), 4):
                if r.random() < 0.6:
                    mons = []
                    for _ in range(count):
                        low = r.choice((0, 1, 5, 100, 255, r.randrange(256)))
                        mons.append({"min_level": low, "max_level": r.choice((low, 255, r.randrange(low, 256))), "species": r.choice(species)})
                    entry[kind] = {"encounter_rate": r.choice((0, 1, 20, 180, 255, r.randrange(256))), "mons": mons}
            entries.append(entry)
        tree["wild_encounter_groups"][0]["encounters"] = entries
        path.write_text(json.dumps(tree), encoding="utf-8")


GEN3 = ("rs", "e", "fr", "lg")
NAMED = 78      # abilities of Gen 3 with a name


def species_data(r, folder):
    """records of any bytes; in Gen 3 abilities and types have names and every gender ratio can be met"""
    for path in sorted(folder.glob("personal_*")):
        raw = bytearray(r.getrandbits(8) for _ in range(path.stat().st_size))
        if path.name[len("personal_"):] in GEN3:
            for at in range(0, len(raw), 28):
                raw[at + 6], raw[at + 7] = (r.choice((0, 8, 9, 10, 11, 12, 17, r.randrange(18))) for _ in range(2))
                raw[at + 16] = r.choice((0, 31, 63, 127, 191, 225, 254, 255, 1, 253, r.randrange(256)))
                raw[at + 22], raw[at + 23] = (r.choice((0, 1, r.randrange(NAMED))) for _ in range(2))
                for f in range(6):
                    raw[at + f] = r.choice((0, 1, 255, r.randrange(256), r.randrange(256), r.randrange(256)))
        path.write_bytes(raw)


def make(where, seed):
    """the copy, importable from the returned directory"""
    r = random.Random(f"{seed}/own")
    package = where / "numba_pokemon_prngs"
    shutil.copytree(core.REPO / "numba_pokemon_prngs", package, ignore=shutil.ignore_patterns("__pycache__"))
    res = package / "resources"
    arceus(r, res / "encount" / "la")
    shipped = json.loads((res / "encount" / "frlg_wild_encounters.json").read_text(encoding="utf-8"))["wild_encounter_groups"][0]["encounters"]
    names = sorted({m["species"] for e in shipped for kind in SETS if kind in e for m in e[kind]["mons"]})
    names += "SPECIES_NIDORAN_F SPECIES_NIDORAN_M SPECIES_UNOWN SPECIES_BULBASAUR SPECIES_DEOXYS SPECIES_CHIMECHO SPECIES_CELEBI SPECIES_TREECKO".split()
    gen3(r, res / "encount", names)
    species_data(r, res / "bin" / "personal")
    return where
