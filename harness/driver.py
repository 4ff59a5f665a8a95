"""Plays stimuli against the real library and records what it does.

usage: driver.py STIMULI.json OUT.ndjson   (environment: NPP_USE_NUMBA, PYTHONPATH)

STIMULI is a list of histories; a history is a list of steps
  {"o": object, "op": name, "a": arguments, "c": constructor, "np": 0/1}
Arguments and results are lists of words: one 32-bit word, or high and low
words for 64-bit values, as signed integers.  "np" = 1 passes arguments as
numpy integers of the documented type, 0 as Python integers.
Only public calls and attributes are used.
"""
import json
import sys
import enum
import io
import os
import select
import signal
import builtins
import warnings

warnings.simplefilter("ignore")
_open = io.open


def _shim_open(file, *args, **kwargs):
    """spawner_names.json is not part of the tree: read it as an empty table"""
    try:
        path = os.fspath(file)
    except TypeError:
        path = None
    if isinstance(path, str) and path.endswith("spawner_names.json") and not os.path.exists(path):
        mode = args[0] if args else kwargs.get("mode", "r")
        return io.BytesIO(b"{}") if "b" in mode else io.StringIO("{}")
    return _open(file, *args, **kwargs)


io.open = builtins.open = _shim_open

import numpy as np  # noqa: E402

if os.environ.get("VERIF_NO_NUMBA") == "1":
    # as where numba is not installed
    import importlib.util

    class _NoNumba:
        @staticmethod
        def find_spec(name, _path=None, _target=None):
            if name.split(".")[0] in ("numba", "llvmlite"):
                raise ModuleNotFoundError(f"No module named {name!r}", name=name)

    _find_spec = importlib.util.find_spec

    def _installed(name, package=None):
        return None if name.split(".")[0] in ("numba", "llvmlite") else _find_spec(name, package)

    sys.meta_path.insert(0, _NoNumba())
    importlib.util.find_spec = _installed

REFUSED = [0] * 9
WRONG = [0] * 8  # a result that is no integer of at most 64 bits
MASK32 = 0xFFFFFFFF
COMPILED = os.environ.get("VERIF_COMPILED") == "TRUE"
WIDTHS = os.environ.get("VERIF_WIDTHS") == "1" and not COMPILED


def s32(val):
    val &= MASK32
    return val - (1 << 32) if val >> 31 else val


def big(val):
    """compiled functions take no Python integer above 2^63 - 1 (a limit of numba)"""
    return np.uint64(val) if COMPILED and isinstance(val, int) and val >> 63 else val


def word(words):
    """arguments -> int"""
    if len(words) == 1:
        return words[0] & MASK32
    return big((words[0] & MASK32) << 32 | words[1] & MASK32)


def enc(val, width, size=0):
    """integer result -> words; anything else is a wrong result
    size: the documented number of bytes, looked at in plain mode where numpy shows it"""
    if isinstance(val, (bool, np.bool_)) or not isinstance(val, (int, np.integer)):
        return WRONG
    if WIDTHS and size and isinstance(val, np.integer) and (val.dtype.kind != "u" or val.dtype.itemsize != size):
        return WRONG
    val = int(val)
    if not 0 <= val < 1 << (32 * width):
        return WRONG
    return [s32(val)] if width == 1 else [s32(val >> 32), s32(val)]


def enc_float(val):
    """a float draw as floor(value * 2^16)"""
    if not isinstance(val, (float, np.floating)) or not abs(val) < 30000:
        return WRONG
    return [int(np.floor(np.float64(val) * 65536))]


def i32(words):
    return s32(words[0])


class Player:
    """Live objects of one history"""

    def __init__(self):
        self.objs = {}
        self.last = {}

    def aim(self, src, kind, bits):
        """a maximum at the boundary of the draw another object just made"""
        val, full = int(word(self.last[src][-(bits // 32 or 1):])), (1 << bits) - 1
        if kind == "eq":
            val = val
        elif kind == "up":
            val += 1
        elif kind == "wrap":  # product just below a multiple of 2^bits
            val = -pow(val | 1, -1, full + 1)
        elif kind == "carry":  # product just above a multiple of 2^bits
            val = pow(val | 1, -1, full + 1)
        elif kind == "flip":
            val = val % full + (1 << bits - 1)
        elif kind == "half":
            val = val >> 1
        elif kind.startswith("low"):
            val &= (1 << int(kind[3:])) - 1
        elif kind.startswith("next"):
            val = (val & (1 << int(kind[4:])) - 1) + 1
        val = (val & full) or 1
        return [s32(val)] if bits <= 32 else [s32(val >> 32), s32(val)]

    def step(self, ev):
        if "aim" in ev:
            ev["a"] = [self.aim(*ev["aim"])]
        res, seen = self.step_(ev)
        self.last[ev["o"]] = res
        return res, seen

    def step_(self, ev):
        op = ev["op"]
        if op == "new":
            obj = build(ev["c"], ev["a"], ev.get("np", 0))
            self.objs[ev["o"]] = obj
            return [], obj.observe() if ev.get("s", 1) else []
        obj = self.objs[ev["o"]]
        if op == "take":
            # re_init with the seed another object has reached
            obj.real.re_init(big(self.objs[ev["a"][0][0]].real.seed))
            return [], obj.observe()
        if op == "far":
            return far(obj, ev["a"], ev.get("np", 0), ev.get("t", 1)), obj.observe() if ev.get("s", 1) else []
        res = obj.call(op, ev["a"], ev.get("np", 0))
        return res, obj.observe() if ev.get("s", 1) else []


GIVEN_UP = [0] * 10


def far(obj, args, npy, seconds):
    """three draws after an advance, in a child process that may be given up after some seconds"""
    source, sink = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            obj.call("adv", args, npy)
            res = obj.call("nexts", [[3]], 0)
        except Exception:  # pylint: disable=broad-exception-caught
            res = REFUSED
        os.write(sink, json.dumps(res).encode())
        os._exit(0)
    os.close(sink)
    told = b""
    if select.select([source], [], [], seconds)[0]:
        told = os.read(source, 4096)
    else:
        os.kill(pid, signal.SIGKILL)
        told = json.dumps(GIVEN_UP).encode()
    os.close(source)
    os.waitpid(pid, 0)
    # a child that died without a word crashed
    return json.loads(told) if told else WRONG


class Obj:
    """Wrapper around one library object"""

    width = 1

    def __init__(self, real):
        self.real = real

    def enc(self, val, width=None, size=None):
        width = width or self.width
        return enc(val, width, size or 4 * width)

    def observe(self):
        return []

    def call(self, op, args, npy):
        if op in ("nexts", "prevs", "rands", "gets"):
            out = []
            for _ in range(args[0][0]):
                out += self.call(op[:-1], args[1:], npy)
            return out
        res = getattr(self, "op_" + op)(*self.convert(op, args, npy))
        return [] if res is None else res

    # the object in the hands of user code
    def op_inner(self, n):
        return sum((self.enc(int(v)) for v in using("inner")(self.real, int(n))), [])

    def op_held(self, n):
        holder = using(self.real_class)(self.real)
        return sum((self.enc(int(holder.draw())) for _ in range(int(n))), [])

    def convert(self, op, args, npy):
        out = []
        for words in args:
            val = word(words)
            if npy:
                val = np.uint32(val) if len(words) == 1 else np.uint64(val)
            out.append(val)
        return out

    def op_next(self):
        return self.enc(self.real.next())

    def op_adv(self, n):
        self.real.advance(n)

    def op_reinit(self, *seed):
        self.real.re_init(*seed)

    def op_rand(self, maximum):
        return self.enc(self.real.next_rand(maximum))


class Lcg(Obj):
    consts = {}

    def __init__(self, cls, width, *args):
        self.cls, self.width = cls, width
        super().__init__(cls(*args))

    def observe(self):
        return enc(self.real.seed, self.width)

    def convert(self, op, args, npy):
        if npy and self.width == 1 and op in ("rand", "rands", "crand"):
            # documented as a 16-bit maximum
            return [np.uint16(word(w)) for w in args]
        return super().convert(op, args, npy)

    def op_u16(self):
        return self.enc(self.real.next_u16(), 1, 2)

    def op_u32(self):
        return self.enc(self.real.next_u32(), 1)

    def op_jump(self, n):
        return self.enc(self.real.jump(n))

    def op_adv(self, n):
        return self.enc(self.real.advance(n))

    def op_walk(self, n):
        for _ in range(int(n)):
            self.real.next()
        return self.observe()

    def op_sweep(self, count, start, delta, maximum):
        out = []
        mask = (1 << (32 * self.width)) - 1
        for i in range(int(count)):
            seed = (int(start) + i * int(delta)) & mask
            self.real.re_init(big(seed))
            out += self.op_rand(maximum)
        return out

    def const(self, kind, n):
        key = (self.cls, kind, int(n), type(n))
        if key not in Lcg.consts:
            Lcg.consts[key] = getattr(self.cls, kind)(n)
        return Lcg.consts[key]

    def op_cjump(self, n):
        return self.enc(self.const("const_jump", n)(self.real))

    def op_leaps(self, n, count):
        return sum((self.enc(int(v)) for v in using("leaps", self.const("const_jump", n))(self.real, int(count))), [])

    def op_crand(self, n):
        return self.enc(self.const("const_rand", n)(self.real), 1, 2 * self.width)

    def op_rand(self, maximum):
        return self.enc(self.real.next_rand(maximum), 1, 2 * self.width)


class Mt(Obj):
    def op_randmod(self, maximum):
        return self.enc(self.real.next_rand_mod(maximum), 1)

    def op_shuffle(self):
        self.real.shuffle()


class Sfmt(Mt):
    width = 2


class Tiny(Mt):
    def op_temper(self):
        return self.enc(self.real.temper(), 1)


class Xs(Obj):
    def observe(self):
        return [s32(int(v)) for v in self.real.state]

    def convert(self, op, args, npy):
        if op in ("range", "flt", "unit", "frac"):
            vals = [i32(w) for w in args]
            if op == "frac":
                vals = [v * 2.0 ** vals[2] for v in vals[:2]] + [2.0 ** vals[2]]
            if op != "range":
                return [np.float32(v) for v in vals] if npy else [float(v) for v in vals]
            return [np.int32(v) for v in vals] if npy else vals
        return super().convert(op, args, npy)

    def op_prev(self):
        return self.enc(self.real.previous())

    def op_range(self, low, high):
        return self.enc(self.real.next_randrange(low, high), 1)

    def op_alt(self, maximum):
        return self.enc(self.real.next_alternate_rand(maximum), 1)

    def op_flt(self, low, high):
        return enc_float(self.real.next_float_randrange(low, high))

    def op_frac(self, low, high, one):
        return enc_float(self.real.next_float_randrange(low, high) / np.float64(one))

    def op_unit(self, low, high):
        """to 2^-30, between neighbouring integers"""
        val = self.real.next_float_randrange(low, high)
        if not isinstance(val, (float, np.floating)) or not abs(val) < 1.5:
            return WRONG
        return [int(np.floor(np.float64(val) * (1 << 30)))]


class Xo(Xs):
    width = 2

    def observe(self):
        out = []
        for val in self.real.state:
            out += enc(int(val), 2)
        return out

    def convert(self, op, args, npy):
        return Obj.convert(self, op, args, npy)

    def op_rand(self, maximum):
        return self.enc(self.real.next_rand(maximum), 1)

    def op_mask(self, maximum):
        return self.enc(self.real.bit_mask(maximum), 1)


class Xm(Xo):
    width = 1


class RngList(Obj):
    built = {}
    methods = {"next": "next", "u16": "next_u16", "u32": "next_u32", "prev": "previous"}

    def __init__(self, con, args, npy):
        from numba_pokemon_prngs.rng_list import build_rnglist

        self.width, self.bytes = con["w"], np.dtype(con["dtype"]).itemsize
        key = (con["gen"], con["m"], con["dtype"], con["size"])
        if key not in RngList.built:
            RngList.built[key] = build_rnglist(
                rng_class=prng_class(con["gen"]),
                next_function_name=self.methods[con["m"]],
                state_type=np.dtype(con["dtype"]).type,
                size=con["size"],
            )
        super().__init__(RngList.built[key](build({"k": con["gen"]}, args, npy).real))

    def op_get(self):
        return self.enc(self.real.get_value(), size=self.bytes)

    def op_inner(self, n):
        return sum((self.enc(int(v)) for v in using("reader")(self.real, int(n))), [])

    def op_skip(self, n):
        self.real.advance(n)

    def op_slide1(self):
        self.real.advance_state()

    def op_slide(self, n):
        self.real.advance_states(n)

    def op_refill(self):
        self.real.re_init()

    def op_adv(self, n):
        self.real.advance_states(n)

    def op_next(self):
        return self.op_get()


class Sha(Obj):
    """precompute's result is an opaque token, passed on to hash_seed"""

    def __init__(self, con, args, npy):
        from numba_pokemon_prngs.sha1 import SHA1
        from numba_pokemon_prngs.enums import DSType, Game, Language

        mac, v_frame, gx_state = (int(word(w)) for w in args)
        if npy:
            mac, v_frame, gx_state = np.uint64(mac), np.uint8(v_frame), np.uint8(gx_state)
        super().__init__(SHA1(Game[con["game"]], Language[con["lang"]], DSType[con["ds"]], mac, con["soft"], v_frame, gx_state))
        self.token = None

    types = {"button": (np.uint32,), "date": (np.uint16, np.uint8, np.uint8, np.uint8),
             "time": (np.uint8, np.uint8, np.uint8), "timer": (np.uint32, np.uint8)}

    def convert(self, op, args, npy):
        vals = [int(word(w)) for w in args]
        return [t(v) for t, v in zip(self.types[op], vals)] if npy and vals and op in self.types else vals

    def op_button(self, *args):
        self.real.set_button(*args)

    def op_date(self, *args):
        self.real.set_date(*args)

    def op_time(self, *args):
        self.real.set_time(*args)

    def op_timer(self, *args):
        self.real.set_timer0(*args)

    def op_pre(self):
        self.token = self.real.precompute()

    def op_hash(self):
        return self.enc(self.real.hash_seed(self.token), 2)

    def op_scan(self, hour, minute, count):
        return sum((self.enc(int(v), 2) for v in using("scan")(self.real, self.token, np.uint8(hour), np.uint8(minute), int(count))), [])


STATE_ATTRS = ("ability ability_index level shiny".split(), "gender nature hidden_power hidden_power_strength characteristic".split())


def state_words(state):
    """every public attribute of a generated state"""
    def one(val, width=1):
        # flags are numbers when compiled
        return enc(int(val) if isinstance(val, (bool, np.bool_)) else val, width)

    out = one(state.advance) + one(state.pid) + one(state.species) + one(state.form)
    for vals, names in ((state.ivs, STATE_ATTRS[0]), (state.stats, STATE_ATTRS[1])):
        if len(vals) != 6:
            return WRONG
        for val in vals:
            out += one(val)
        for name in names:
            out += one(getattr(state, name))
    return out


def codes(text):
    return [ord(c) for c in str(text)]


def area_record(vals):
    """an encounter area from its 101 numbers"""
    from numba_pokemon_prngs.data.encounter.encounter_area_3 import EncounterArea3

    area = np.zeros(1, dtype=EncounterArea3.dtype).view(np.recarray)[0]
    vals = iter(vals)
    area.location = next(vals)
    for rate, names in (("land_rate", ["land"]), ("water_rate", ["water"]), ("rock_rate", ["rock"]),
                        ("fish_rate", ["fish_old", "fish_good", "fish_super"])):
        setattr(area, rate, next(vals))
        for name in names:
            slots = getattr(area, name)
            for i in range(len(slots)):
                slots[i].min_level, slots[i].max_level, slots[i].species = next(vals), next(vals), next(vals)
    return area


def enum3(con):
    """enum members or plain numbers"""
    from numba_pokemon_prngs.enums import Encounter, Game, Lead, Method

    vals = con["method"], con["enc"], con["lead"], con["game"]
    return [t(v) for t, v in zip((Method, Encounter, Lead, Game), vals)] if con.get("enum") else vals


def own_area(game, number):
    """an area of a game as the package loads it"""
    from numba_pokemon_prngs.data import encounter
    from numba_pokemon_prngs.enums import Game

    return encounter.ENCOUNTER_INFORMATION_GEN3[Game(game)][number]


class Gen3(Obj):
    def __init__(self, con, args, npy):
        from numba_pokemon_prngs.gen3.wild_generator_3 import WildGenerator3

        self.game = con["game"]
        tid, sid = (word(w) for w in args)
        self.made = *enum3(con), *((np.uint16(tid), np.uint16(sid)) if npy else (tid, sid))
        super().__init__(WildGenerator3(*self.made))

    def call(self, op, args, npy):
        nums = [word(w) for w in args[:4]]
        if npy:
            nums = [np.uint32(n) for n in nums]
        out = []
        area = own_area(self.game, word(args[4])) if op == "hunt" else area_record(args[4])
        if op == "within":
            states = wild_functions()[0](*self.made, *nums, area)
        elif op == "lent":
            states = wild_functions()[1](self.real, *nums, area)
        else:
            states = self.real.generate(*nums, area)
        for state in states:
            out += state_words(state)
        return out


def wild_functions():
    """user code that makes a generator of its own, or is given one"""
    if "wild" not in USER:
        from numba_pokemon_prngs.compilation import optional_njit
        from numba_pokemon_prngs.gen3.wild_generator_3 import WildGenerator3

        @optional_njit
        def within(method, encounter, lead, game, tid, sid, seed, delay, start, count, area):
            return WildGenerator3(method, encounter, lead, game, tid, sid).generate(seed, delay, start, count, area)

        @optional_njit
        def lent(generator, seed, delay, start, count, area):
            found = generator.generate(seed, delay, start, count, area)
            # looking at them changes nothing
            seen = 0
            for state in found:
                seen += state.level
            return found

        USER["wild"] = within, lent
    return USER["wild"]


class State3(Obj):
    def __init__(self, con, args, npy):
        from numba_pokemon_prngs.data.personal import get_info_table
        from numba_pokemon_prngs.gen3.state import GeneratorState

        adv, pid, species, form, (bit, level, shiny) = *(word(w) for w in args[:4]), (word(w) for w in args[5:])
        ivs = np.array(args[4], dtype=np.uint8)
        info = get_info_table(con["game"])[species]
        if npy:
            adv, pid, species, form = np.uint32(adv), np.uint32(pid), np.uint16(species), np.uint8(form)
            bit, level, shiny = np.uint8(bit), np.uint8(level), np.uint8(shiny)
        super().__init__(GeneratorState(adv, pid, species, form, ivs, bit, level, shiny, info))

    def call(self, op, args, npy):
        if op == "attrs":
            return state_words(self.real)
        if op == "csv":
            return [c for pair in self.real.csv() for text in pair for c in codes(text) + [0]]
        return codes(self.real)


class Gen3Util(Obj):
    def __init__(self):
        super().__init__(None)

    def call(self, op, args, npy):
        from numba_pokemon_prngs.data.encounter.encounter_area_3 import Slot3
        from numba_pokemon_prngs.gen3 import encounter_area_3 as area_3, util as util_3
        from numba_pokemon_prngs.lcrng import PokeRNGMod
        from numba_pokemon_prngs.util import compute_stat

        def num(val):
            return enc(int(val) if isinstance(val, (bool, np.bool_)) else val, 1)

        if op in ("gender", "shiny", "unown"):
            vals = [int(word(w)) for w in args]
            if npy:
                vals = [np.uint32(vals[0]), (np.uint16 if op == "shiny" else np.uint8)(vals[1])]
            return num({"gender": util_3.get_gender, "shiny": util_3.get_shiny, "unown": util_3.unown_check}[op](*vals))
        if op == "stat":
            val = args[0][0]
            out = []
            for nature in range(25):
                for index in range(1, 6):
                    out += num(compute_stat(np.uint16(val), np.uint8(nature), np.int8(index)) if npy else compute_stat(val, nature, index))
            return out
        if op == "rate":
            return num(area_3.get_encounter_rate(area_record(args[0]), args[1][0]))
        if op == "safari":
            return num(area_3.is_rse_safari_zone(area_record(args[0]), args[1][0]))
        rng, out = PokeRNGMod(0), []
        if op in ("attracted", "leads"):
            from numba_pokemon_prngs.data.personal import get_info_table_3
            from numba_pokemon_prngs.enums import Encounter, Game, Lead

            kind, lead, game = (args if op == "attracted" else args[3:])[:3]
            kind, lead, game, area = Encounter(kind[0]), Lead(lead[0]), Game(game[0]), area_record(args[-1])
            if npy:
                kind, lead, game = np.uint8(kind), np.uint8(lead), np.uint8(game)
            found = area_3.get_modified_slots(area, kind, lead, game, get_info_table_3(game))
            if op == "attracted":
                return sum((num(hit["min_level"]) + num(hit["max_level"]) + num(hit["species"]) for hit in found), [])
        count, start, delta = (int(word(w)) for w in args[:3])
        if op == "slots":
            area, kind = area_record(args[4]), args[3][0]
        elif op == "levels":
            slot = np.zeros(1, dtype=Slot3.dtype).view(np.recarray)[0]
            slot.min_level, slot.max_level = args[3][0], args[4][0]
        for i in range(count):
            rng.re_init((start + i * delta) & MASK32)
            if op in ("slots", "leads"):
                hit = area_3.calculate_hslot(area, rng, kind) if op == "slots" else area_3.calculate_hslot_lead(area, rng, kind, lead, found)
                out += num(hit["min_level"]) + num(hit["max_level"]) + num(hit["species"])
            else:
                out += num(area_3.calculate_level(slot, rng, bool(args[5][0])))
            out += num(rng.seed)
        return out


def area_words(area):
    """the 101 numbers of an encounter area"""
    out = [area.location]
    for rate, names in (("land_rate", ["land"]), ("water_rate", ["water"]), ("rock_rate", ["rock"]),
                        ("fish_rate", ["fish_old", "fish_good", "fish_super"])):
        out.append(getattr(area, rate))
        for name in names:
            for slot in getattr(area, name):
                out += [slot["min_level"], slot["max_level"], slot["species"]]
    return [x for val in out for x in enc(val, 1)]


class Enc3(Obj):
    """the loaded encounter tables of a game"""

    def __init__(self, con):
        from numba_pokemon_prngs.data import encounter
        from numba_pokemon_prngs.enums import Game

        game = Game(con["game"])
        src = con["src"]
        if src == "load":
            names, areas = encounter.load_encounter_3(game)
        elif src == "dict":
            names, areas = encounter.MAP_NAMES_GEN3[game], encounter.ENCOUNTER_INFORMATION_GEN3[game]
        else:
            names, areas = (getattr(encounter, f"{part}_{game.name}") for part in ("MAP_NAMES", "ENCOUNTER_INFORMATION"))
        self.names, self.areas = names, areas
        super().__init__(encounter)

    def call(self, op, args, npy):
        if op == "count":
            return [len(self.names), len(self.areas)]
        if op == "digest":
            areas = digest([x for area in self.areas for x in area_words(area)])
            return [len(self.names), len(self.areas), s32(areas), s32(digest([x for name in self.names for x in codes(name) + [0]]))]
        if op == "clean":
            return codes(self.real.clean_map_string("".join(map(chr, args[0]))))
        return area_words(self.areas[args[0][0]]) if op == "area" else codes(self.names[args[0][0]])


def digest(words, h=0):
    """order-sensitive checksum of many words"""
    for x in words:
        h = ((h << 5 | h >> 27) & MASK32) ^ (x & MASK32)
    return h


def enc_opt(val, width=1):
    """an exposed integer or flag; absent ones are zero"""
    return enc(0 if val is None else int(val) if isinstance(val, (bool, np.bool_)) else val, width)


def bits32(val):
    if isinstance(val, bool) or not isinstance(val, (int, float, np.floating)):
        return WRONG
    with np.errstate(all="ignore"):
        return [int(np.float32(val).view(np.int32))]


def bits64(val):
    raw = int(np.float64(val).view(np.uint64))
    return [s32(raw >> 32), s32(raw)]


class Default(tuple):
    """a default value, true or false"""

    def __bool__(self):
        return self[0] > 0


BYTES = enum.IntEnum("BYTES", {f"B{v}".replace("-", "M"): v for v in range(-128, 256)})


class Reader(Obj):
    """FlatBuffer reading: a forest of objects of our own class"""

    types = "U8 I8 U16 I16 U32 I32 U64 I64 F32 F64".split()

    def __init__(self, con):
        from numba_pokemon_prngs.data.fbs import flatbuffer_object as fbo

        class Node(fbo.FlatBufferObject):
            def __init__(self, buf, offset=None):
                super().__init__(buf, offset)
                self.where = offset

        self.fbo, self.cls = fbo, Node
        self.buf = bytes(con["buf"])
        super().__init__(Node(bytearray(self.buf) if con.get("array") else self.buf))
        self.nodes = [self.real]

    def scalar(self, kind, val):
        if kind == "F32":
            return bits32(val)
        if kind == "F64":
            return bits64(val)
        if isinstance(val, bool) or not isinstance(val, (int, np.integer)):
            return WRONG
        val = int(val)
        if kind in ("U64", "I64"):
            return [s32(val >> 32), s32(val)] if -(1 << 63) <= val < 1 << 64 and (val < 0) <= (kind == "I64") else WRONG
        return [s32(val)] if -(1 << 31) <= val < 1 << 32 and (val < 0) <= (kind[0] == "I") else WRONG

    def call(self, op, args, npy):
        node = self.nodes[args[0][0] - 1]
        if op == "skip":
            node.read_init_padding(args[1][0])
            return []
        if op == "dump":
            sink = io.BytesIO()
            node.dump_binary(sink)
            return list(sink.getvalue())
        seq, kind = ("init_", op[1:]) if op[0] == "s" and op != "str" else ("", op)
        type_name = self.types[args[1][0] - 1]
        type_ = getattr(self.fbo, type_name)
        default = None if not args[2] else Default(args[2])  # anything may be a default
        pos = () if seq else (args[3][0],)
        kwargs = {} if default is None else {"default": default}

        def read(name):
            return getattr(node, f"read_{seq}{name}")

        if kind == "val":
            val = read("float" if type_name[0] == "F" else "int")(type_, *pos, **kwargs)
        elif kind == "enum":
            val = read("int_enum")(type_, *pos, lambda x: [77] + self.scalar(type_name, x), **kwargs)
        elif kind in ("cast", "isset", "member"):
            val = read("int_enum")(type_, *pos, {"cast": int, "isset": bool, "member": BYTES}[kind], **kwargs)
        elif kind == "obj":
            val = read("object")(self.cls, *pos, **kwargs)
        elif kind == "arr":
            val = read("object_array")(self.cls, *pos)
        elif kind == "str":
            val = read("string")(*pos, **kwargs)
        else:
            val = read("vec3f")(*pos, **kwargs)
        if val is default and kind != "arr":
            return [0] + list(() if default is None else default)
        if kind == "val":
            return [1] + self.scalar(type_name, val)
        if kind == "enum":
            return [1] + val
        if kind == "cast":
            return [1] + self.scalar(type_name, val)
        if kind == "isset":
            return [1, int(val)] if isinstance(val, bool) else WRONG
        if kind == "member":
            return [1, val.value] if isinstance(val, BYTES) else WRONG
        if kind == "str":
            return [1] + list(val.encode()) if isinstance(val, str) else WRONG
        if kind == "vec":
            parts = val.as_tuple()
            if parts != (val.x, val.y, val.z):
                return WRONG
            return [1] + [x for part in parts for x in ([0] if part is None else [1] + bits32(part))]
        found = [val] if kind == "obj" else list(val)
        self.nodes += found
        return [1] + [n.where for n in found]


TABLES8 = {
    "spawner": ("PlacementSpawner8aTable", "spawners", ("spawner_table_lookup", "spawner_by_group")),
    "multiplier": ("EncounterMultiplier8aTable", "encounter_multipliers", ("multiplier_lookup",)),
    "misc": ("PokeMisc8aTable", "misc_list", ("misc_lookup",)),
    "encounter": ("EncounterTable8aTable", "encounter_tables", ("encounter_table_lookup",)),
    "group": ("NewHugeOutbreakGroupTable8a", "groups", ("group_lookup",)),
    "lottery": ("NewHugeOutbreakGroupLotteryTable8a", "lottery_groups", ("lottery_group_lookup",)),
}


class CacheFiles(Obj):
    """what earlier processes left in the cache directory"""

    def __init__(self):
        super().__init__(None)

    def call(self, op, args, npy):
        top = os.environ["XDG_CACHE_HOME"]
        part = args[0][0]
        for folder, _, names in os.walk(top):
            for name in names:
                path = os.path.join(folder, name)
                size = os.path.getsize(path)
                if op == "cut":  # 1/1000 parts, or all but some bytes
                    os.truncate(path, max(0, size * part // 1000 if part >= 0 else size + part))
                else:
                    os.remove(path)
        return []


class Table8(Obj):
    """a Legends Arceus table: loaded, or read from bytes"""

    def __init__(self, con):
        from numba_pokemon_prngs.data.fbs import encounter_la

        self.kind = con["tab"]
        cls, self.rows, self.lookups = TABLES8[self.kind]
        if con["src"] == "bytes":
            real = getattr(encounter_la, cls)(bytes(con["buf"]))
        elif con["src"] == "file":
            from numba_pokemon_prngs.resources import encount

            path = os.path.join(os.path.dirname(encount.__file__), "la", con["file"] + ".bin")
            with _open(path, "rb") as file:
                real = getattr(encounter_la, cls)(file.read())
        else:
            from numba_pokemon_prngs.data import encounter
            from numba_pokemon_prngs.enums import LAArea

            real = {
                "spawner": lambda: encounter.SPAWNER_INFORMATION_LA[LAArea(int(con["file"][7:9]))],
                "multiplier": lambda: encounter.ENCOUNTER_MULTIPLIER_LA,
                "misc": lambda: encounter.POKE_MISC_LA,
                "group": lambda: encounter.NHO_GROUP_TABLE_LA,
                "lottery": lambda: encounter.NHO_LOTTERY_TABLE_LA,
            }[self.kind]()
        super().__init__(real)

    def key(self, row, which):
        if self.kind in ("multiplier", "misc"):
            return (row.species, row.form or 0)
        name = {"spawner": ("spawner_id", "group_id")[which], "encounter": "table_id"}.get(self.kind, "hash")
        return getattr(row, name)

    def record(self, row):
        def floats(vals, count):
            return [x for v in vals for x in bits32(v)] if len(vals) == count else WRONG

        def multipliers(src):
            return floats(src.time_of_day_multipliers, 4) + floats(src.weather_multipliers, 9)

        def ints(src, names):
            return [x for name in names.split() for x in enc_signed(getattr(src, name))]

        def ids(rows):
            return [x for r in rows for x in enc_opt(r.hash, 2)]

        if self.kind == "spawner":
            place = [0.0 if v is None else v for v in row.coordinates.as_tuple()]
            return (enc_opt(row.spawner_id, 2) + enc_opt(row.group_id, 2) + floats(place, 3)
                    + ints(row, "min_spawn_count max_spawn_count is_mass_outbreak is_water is_sky") + enc_opt(row.encounter_table_id, 2))
        if self.kind == "multiplier":
            return ints(row, "species form") + multipliers(row)
        if self.kind == "misc":
            return ints(row, "species form alpha_level_index")
        if self.kind == "encounter":
            out = enc_opt(row.table_id, 2) + ints(row, "min_level max_level") + [len(row.encounter_slots)]
            for slot in row.encounter_slots:
                out += ints(slot, "species gender form guaranteed_ivs base_probability override_min_level override_max_level")
                out += multipliers(slot.encounter_eligibility) + ints(slot, "is_alpha")
            return out
        if self.kind == "group":
            return (enc_opt(row.hash, 2) + [len(row.wave_details)] + [x for d in row.wave_details for x in enc_opt(d.encounter_table_id, 2)]
                    + enc_opt(row.first_wave_encounter_table_id, 2))
        parts = row.table_common, row.table_rare_1, row.table_rare_2
        full = list(row.full_table)
        if any(row.full_table_lookup[d.hash].hash != d.hash for d in full) or len(row.full_table_lookup) != len({d.hash for d in full}):
            return WRONG
        return enc_opt(row.hash, 2) + [len(p) for p in parts] + [x for p in parts for x in ids(p)] + ids(full)

    def call(self, op, args, npy):
        rows = getattr(self.real, self.rows)
        if op == "count":
            return [len(rows)]
        if op == "rows":
            return [x for i in range(args[1][0]) for x in self.record(rows[args[0][0] + i])]
        lookup = getattr(self.real, self.lookups[args[0][0] - 1])
        if op == "lookup":
            return [len(lookup)] + [int(self.record(lookup[self.key(row, args[0][0] - 1)]) == self.record(row)) for row in rows]
        key = tuple(s32(x) for x in args[1]) if self.kind in ("multiplier", "misc") else int(word(args[1]))
        return self.record(lookup[key]) if key in lookup else []


def enc_signed(val):
    """a 32-bit signed field or flag; absent ones are zero"""
    if val is None:
        return [0]
    if not isinstance(val, (bool, int, np.integer, np.bool_)) or not -(1 << 31) <= int(val) < 1 << 31:
        return WRONG
    return [int(val)]


SHOWN8 = "species gender form min_level max_level guaranteed_ivs base_probability is_alpha".split()


def slot8_words(slot, multipliers=True):
    out = [int(slot[name]) for name in SHOWN8]
    if multipliers:
        for name, count in (("time_multipliers", 4), ("weather_multipliers", 9)):
            vals = slot[name]
            if len(vals) != count:
                return WRONG
            out += [x for v in vals for x in bits32(v)]
    return out


class Areas8(Obj):
    """the encounter areas of a map, by table id"""

    def __init__(self, con):
        from numba_pokemon_prngs.data import encounter
        from numba_pokemon_prngs.enums import LAArea

        area = LAArea(con["area"])
        super().__init__(encounter.load_encounter_tables_la(area) if con["src"] == "load" else encounter.ENCOUNTER_INFORMATION_LA[area])
        self.ids = con["ids"]

    def call(self, op, args, npy):
        if op == "count":
            return [len(self.real)]
        if op == "digest":
            return [len(self.real), s32(digest(self.rows(0, len(self.ids))))]
        return self.rows(args[0][0], args[1][0])

    def rows(self, first, count):
        out = []
        for i in range(first, first + count):
            area = self.real[np.uint64(word(self.ids[i]))]
            out += enc(int(area.table_id), 2) + [len(area.slots)]
            for slot in area.slots:
                out += slot8_words(slot)
        return out


class Chooser8(Obj):
    """an encounter area to draw slots from: a loaded one, or one with the given slots"""

    def __init__(self, con):
        if con["area"]:
            from numba_pokemon_prngs.data import encounter
            from numba_pokemon_prngs.enums import LAArea

            area = encounter.ENCOUNTER_INFORMATION_LA[LAArea(con["area"])][np.uint64(word(con["id"]))]
        else:
            from numba_pokemon_prngs.data.encounter.encounter_area_la import EncounterAreaLA, SlotLA

            area = EncounterAreaLA(np.uint64(1), len(con["slots"]))
            slots = np.zeros(len(con["slots"]), dtype=SlotLA.dtype)
            for slot, vals in zip(slots, con["slots"]):
                for name, val in zip(SHOWN8, vals):
                    slot[name] = val
                slot["time_multipliers"] = np.array(vals[8:12], dtype=np.int32).view(np.float32)
                slot["weather_multipliers"] = np.array(vals[12:21], dtype=np.int32).view(np.float32)
            area.slots = slots
        super().__init__(area)

    def call(self, op, args, npy):
        from numba_pokemon_prngs.enums import LATime, LAWeather

        time, weather, count, start, *delta = (a[0] for a in args)
        if npy:
            time, weather = LATime(time), LAWeather(weather)
        out = []
        if op == "highest":
            for e in range(start, start + count):
                out += slot8_words(self.real.calc_slot((np.float64 if npy else float)(1 - 2.0 ** -e), time, weather), False)
            return out
        delta = delta[0]
        for i in range(count):
            k = (start + delta * i) & 0xFFFFFF
            out += slot8_words(self.real.calc_slot(np.float32(k / (1 << 24)), time, weather), False)
        return out


class Personal(Obj):
    """one field of the species table of a game"""

    def __init__(self, con):
        from numba_pokemon_prngs.data import personal
        from numba_pokemon_prngs.enums import Game

        game = Game[con["game"]]
        self.field, self.via = con["field"], con["via"]
        try:
            super().__init__((personal.get_info_table_3 if con["via"] == 3 else personal.get_info_table)(game))
        except NotImplementedError:
            super().__init__(None)

    def call(self, op, args, npy):
        if self.real is None:
            return [-1]
        if op == "count":
            return [len(self.real)]
        out = []
        for i in range(args[2][0]):
            row = self.real[args[0][0] + i * args[1][0]]
            val = row[self.field] if self.via == 3 else getattr(row, self.field)
            out += [int(x) for x in np.ravel(val)]
        return out


class Enumeration(Obj):
    def __init__(self, con):
        self.enum, self.names = con["enum"], con["names"]
        super().__init__(None)

    def call(self, op, args, npy):
        from numba_pokemon_prngs import enums

        return [s32(int(getattr(enums, self.enum)[name])) for name in self.names]


class Games(Obj):
    def __init__(self, con):
        self.names = con["names"]
        super().__init__(None)

    def call(self, op, args, npy):
        from numba_pokemon_prngs.enums import Game

        return [s32(int(Game[name])) for name in self.names]


OLDER = []


def older_python():
    """The compatibility module as an interpreter before Python 3.8 would load it"""
    if not OLDER:
        import collections
        import importlib.util

        from numba_pokemon_prngs import compatability

        version = collections.namedtuple("version_info", "major minor micro releaselevel serial")
        spec = importlib.util.spec_from_file_location("older_compatability", compatability.__file__)
        module = importlib.util.module_from_spec(spec)
        real = sys.version_info
        sys.version_info = version(3, 7, 9, "final", 0)
        try:
            spec.loader.exec_module(module)
        finally:
            sys.version_info = real
        OLDER.append(module)
    return OLDER[0]


def util_call(op, args, npy):
    from numba_pokemon_prngs import util, fnv, compatability

    if op in ("fnv1", "fnv1a"):
        text = "".join(chr(w[0]) for w in args)
        return enc((fnv.fnv1_64 if op == "fnv1" else fnv.fnv1a_64)(text), 2, 8)
    if op == "tname":
        # the key under which a shipped table name is filed
        from numba_pokemon_prngs.data import encounter

        text = "".join(chr(w[0]) for w in args)
        found = [key for key, name in encounter.ENCOUNTER_TABLE_NAMES_LA.items() if name == text]
        return enc(int(found[0]), 2) if len(found) == 1 else WRONG
    vals = [int(word(w)) for w in args]
    if op == "hex":
        text = util.hex_32(np.uint32(vals[0]) if npy else vals[0])
        return [ord(c) for c in str(text)]
    if op == "inv":
        val = -vals[0] if vals[1] else vals[0]
        answers = []
        for module in (compatability, older_python())[:1 if vals[1] else 2]:
            try:
                answers.append([1] + enc(module.mod_inv(val, vals[2]), 1))
            except (ValueError, ArithmeticError):
                answers.append([0])
        return answers[0] if answers[0] == answers[-1] else WRONG
    if op in ("inv32", "inv64"):
        modulus = 1 << int(op[3:])
        inverse = compatability.mod_inv(vals[0], modulus)
        if older_python().mod_inv(vals[0], modulus) != inverse:
            return WRONG
        return enc(inverse, 1 if op == "inv32" else 2)
    if op == "bswap":
        return enc(util.change_endian_u32(np.uint32(vals[0]) if npy else vals[0]), 1, 4)
    big = op.endswith("64")
    func = getattr(util, ("rotate_left_u" if op[3] == "l" else "rotate_right_u") + op[4:])
    if npy:
        vals = [(np.uint64 if big else np.uint32)(vals[0]), np.uint8(vals[1])]
    return enc(func(*vals), 2 if big else 1, 8 if big else 4)


class Util(Obj):
    def __init__(self):
        super().__init__(None)

    def call(self, op, args, npy):
        return util_call(op, args, npy)


USER = {}


def user_classes(form):
    """a class written with the package's helpers, decorated in one of the ways they allow, and an owner"""
    if form in USER:
        return USER[form]
    from numba_pokemon_prngs.compilation import optional_jitclass, array_type

    class Base:
        def __init__(self, start):
            self.total = np.uint32(start)
            self.prod = np.uint64(1)
            self.seen = np.zeros(4, dtype=np.uint16)

        def add(self, k):
            self.total = np.uint32(self.total + np.uint32(k))
            self.prod = np.uint64(self.prod * np.uint64(np.uint32(k) | np.uint32(1)))
            self.seen[self.total & np.uint32(3)] += np.uint16(1)
            return np.uint32(self.total)

        def many(self, count, k):
            for _ in range(count):
                self.add(k)
            return np.uint32(self.total)

    words = {"total": np.uint32, "prod": np.uint64}
    rest = {"seen": array_type(np.uint16)}
    if form in ("bare", "called"):
        Base.__annotations__ = {**words, **rest}
        tally = optional_jitclass(Base) if form == "bare" else optional_jitclass()(Base)
    elif form == "dict":
        tally = optional_jitclass({**words, **rest})(Base)
    elif form == "both":
        Base.__annotations__ = words
        tally = optional_jitclass(Base, rest)
    else:
        Base.__annotations__ = rest
        tally = optional_jitclass(spec=words)(Base)

    class Owner:
        inner: tally

        def __init__(self, inner):
            self.inner = inner

        def twice(self, k):
            self.inner.add(k)
            return np.uint32(self.inner.add(k))

    Owner.__annotations__ = {"inner": tally}
    USER[form] = tally, optional_jitclass(Owner)
    return USER[form]


def using(what, *more):
    """user code that works on objects of the library"""
    key = (what, *more)
    if key in USER:
        return USER[key]
    from numba_pokemon_prngs.compilation import optional_jitclass, optional_njit

    if what == "inner":

        @optional_njit
        def made(rng, n):
            out = np.empty(n, dtype=np.uint64)
            for i in range(n):
                out[i] = rng.next()
            return out

    elif what == "reader":

        @optional_njit
        def made(values, n):
            out = np.empty(n, dtype=np.uint64)
            for i in range(n):
                out[i] = values.get_value()
            return out

    elif what == "leaps":
        jump = more[0]

        @optional_njit()
        def made(rng, n):
            out = np.empty(n, dtype=np.uint64)
            for i in range(n):
                jump(rng)
                out[i] = rng.next()
            return out

    elif what == "scan":

        @optional_njit
        def made(sha, token, hour, minute, n):
            out = np.empty(n, dtype=np.uint64)
            for i in range(n):
                sha.set_time(hour, minute, i)
                out[i] = sha.hash_seed(token)
            return out

    else:
        # a class that owns a generator
        class Holder:
            rng: what

            def __init__(self, rng):
                self.rng = rng

            def draw(self):
                return self.rng.next()

        Holder.__annotations__ = {"rng": what}
        made = optional_jitclass(Holder)
    USER[key] = made
    return made


class Tally(Obj):
    def __init__(self, con, args, npy):
        tally, owner = user_classes(con["form"])
        super().__init__(tally(*self.convert("new", args, npy)))
        self.owner = owner(self.real)

    def op_add(self, k):
        return enc(self.real.add(k), 1, 4)

    def op_many(self, count, k):
        return enc(self.real.many(count, k), 1, 4)

    def op_prod(self):
        return enc(self.real.prod, 2, 8)

    def op_seen(self):
        return [int(v) for v in self.real.seen]

    def op_twice(self, k):
        return enc(self.owner.twice(k), 1, 4)


def user_functions():
    if "functions" in USER:
        return USER["functions"]
    from numba_pokemon_prngs.compilation import array_type, optional_njit, return_type, unituple_type

    def mix(x, y):
        x, y = np.uint32(x), np.uint32(y)
        v = np.uint32(x + np.uint32(y * np.uint32(1812433253)))
        return np.uint32((v << np.uint32(7)) | (v >> np.uint32(25))) ^ y

    words = (np.uint32, np.uint32)

    # compiled code would widen the sum
    def half(x, y):
        v = x + y
        return v >> np.uint32(1)

    @optional_njit(return_type(unituple_type(np.uint32, 2), words))
    def pair(x, y):
        return np.uint32(x + y), np.uint32(x - y)

    @optional_njit(return_type(np.void, words))
    def nothing(x, y):
        pass

    @optional_njit(return_type(unituple_type(np.uint32, 1), words))
    def single(x, y):
        return (np.uint32(x + y),)

    @optional_njit(return_type(unituple_type(np.uint8, 4), words))
    def parts(x, y):
        v = np.uint32(x ^ y)
        return np.uint8(v), np.uint8(v >> np.uint32(8)), np.uint8(v >> np.uint32(16)), np.uint8(v >> np.uint32(24))

    @optional_njit(return_type(np.uint64, (np.uint64, np.uint64)))
    def product(x, y):
        return np.uint64(x) * np.uint64(y)

    @optional_njit(return_type(np.bool_, words))
    def below(x, y):
        return x < y

    def folded(values):
        acc = np.uint32(0)
        for v in values:
            acc = np.uint32(np.uint32((acc << np.uint32(1)) | (acc >> np.uint32(31))) ^ v)
        return acc

    fold = optional_njit(folded)

    def along(values):
        return fold(values.flatten())

    # arrays of 1 to 3 dimensions, in rows, in columns, with gaps, not to be written to
    arrays = {}
    for ndim in (1, 2, 3):
        for layout in "CFA":
            if ndim > 1 or layout != "F":
                arrays[f"array{layout}{ndim}"] = ndim, layout, False
                arrays[f"fixed{layout}{ndim}"] = ndim, layout, True
    compiled = {k: optional_njit(return_type(np.uint32, (array_type(np.uint32, n, order, readonly=fixed),)))(along)
                for k, (n, order, fixed) in arrays.items()}

    def array(name):
        n, order, fixed = arrays[name]

        def call(x, y):
            values = np.array([(int(x) + i * int(y)) & 0xFFFFFFFF for i in range(1 << n)], dtype=np.uint32).reshape((2,) * n)
            if order == "A":
                gaps = np.zeros((3,) * n, dtype=np.uint32)
                gaps[(slice(0, 3, 2),) * n] = values
                values = gaps[(slice(0, 3, 2),) * n]
            elif order == "F":
                values = np.asfortranarray(values)
            if fixed:
                values.setflags(write=False)
            return compiled[name](values)

        return call

    @optional_njit(return_type(array_type(np.uint32), words))
    def given_array(x, y):
        out = np.empty(3, dtype=np.uint32)
        out[0] = x
        out[1] = y
        out[2] = np.uint32(x + y)
        return out

    @optional_njit(return_type(np.void, (array_type(np.uint32), np.uint32, np.uint32)))
    def fill(out, x, y):
        out[0] = x
        out[1] = y
        out[2] = np.uint32(x + y)

    def filled(x, y):
        out = np.zeros(3, dtype=np.uint32)
        fill(out, x, y)
        return out

    tally, _ = user_classes("bare")

    @optional_njit(return_type(np.uint32, (tally, np.uint32)))
    def step(one, k):
        one.add(k)
        return one.add(k)

    @optional_njit(return_type(np.uint32, (np.str_, np.uint32)))
    def text(chars, start):
        acc = np.uint32(start)
        for c in chars:
            acc = np.uint32(np.uint32((acc << np.uint32(1)) | (acc >> np.uint32(31))) ^ np.uint32(ord(c)))
        return acc

    USER["functions"] = {
        "single": single,
        "parts": lambda x, y: tuple(np.uint32(v) for v in parts(x, y)),
        "product": lambda x, y: np.uint64(product(np.uint64(x), np.uint64(y))),
        "below": lambda x, y: np.uint32(bool(below(x, y))),
        "given_array": lambda x, y: tuple(given_array(x, y)),
        "filled": lambda x, y: tuple(filled(x, y)),
        "step": lambda x, y: np.uint32(step(tally(x), y)),
        "text": lambda x, y: np.uint32(text(f"{int(x):x}", y)),
        **{name: array(name) for name in arrays},
        "bare": optional_njit(mix),
        "called": optional_njit()(mix),
        "signed": optional_njit(return_type(np.uint32, words))(mix),
        "locals": optional_njit(locals={"v": np.uint32})(mix),
        "narrow": optional_njit(locals={"v": np.uint32})(half),
        "both": optional_njit(return_type(np.uint32, words), locals={"v": np.uint32})(half),
        "given": optional_njit(half, locals={"v": np.uint32}),
        "inlined": optional_njit(inline="always")(mix),
        "pair": pair,
        "nothing": nothing,
    }
    return USER["functions"]


class Functions(Obj):
    def call(self, op, args, npy):
        res = user_functions()[op](*(np.uint32(word(w)) for w in args))
        if res is None:
            return []
        if op == "product":
            return enc(res, 2, 8)
        return sum((enc(v, 1, 4) for v in res), []) if isinstance(res, tuple) else enc(res, 1, 4)


def store_functions():
    if "store" in USER:
        return USER["store"]
    from numba_pokemon_prngs.compilation import optional_jitclass, optional_njit

    @optional_jitclass
    class Cell:
        total: np.uint32

        def __init__(self, total):
            self.total = np.uint32(total)

        def grow(self, count):
            self.total = np.uint32(self.total + np.uint32(count))

    @optional_njit
    def inside(store, key):
        return key in store

    @optional_njit
    def fetch(store, key):
        return store[key]

    USER["store"] = Cell, inside, fetch
    return USER["store"]


class Store(Obj):
    """the typed containers"""

    def __init__(self, con):
        from numba_pokemon_prngs.compilation import TypedDict, TypedList

        super().__init__(None)
        self.cell, self.inside, self.fetch = store_functions()
        kinds = {"U8": np.uint8, "U16": np.uint16, "U32": np.uint32, "U64": np.uint64, "I64": np.int64, "CELL": self.cell}
        self.key, self.val = kinds[con["key"]], kinds[con["val"]]
        self.dict, self.list = TypedDict(self.key, self.val), TypedList()

    def convert(self, op, args, npy):
        """words to keys and values"""
        def one(kind, words):
            val = int(word(words))
            if kind is np.int64 and val >> 63:
                val -= 1 << 64
            return kind(val)

        if op in ("push", "at", "pick", "popped", "set", "squeeze"):
            place = [] if op == "push" else [args[0][0]]
            return place + [one(self.val, a) for a in (args if op == "push" else args[1:])]
        out = [one(self.key, a) for a in args[:1]]
        return out + [np.uint32(word(a)) if op == "raise" else one(self.val, a) for a in args[1:]]

    def word(self, kind, val):
        if kind is self.cell:
            return enc(val.total, 1, 4)
        if not isinstance(val, (int, np.integer)) or isinstance(val, np.integer) and WIDTHS and val.dtype != np.dtype(kind):
            return WRONG
        wide = np.dtype(kind).itemsize == 8
        return enc(int(val) % (1 << 64) if kind is np.int64 else int(val), 2 if wide else 1)

    def op_put(self, key, val):
        self.dict[key] = val

    def op_has(self, key):
        return [1] + self.word(self.val, self.dict[key]) if key in self.dict else [0]

    def op_look(self, key):
        return [1] + self.word(self.val, self.fetch(self.dict, key)) if self.inside(self.dict, key) else [0]

    def op_drop(self, key):
        if key not in self.dict:
            return [0]
        del self.dict[key]
        return [1]

    def op_raise(self, key, count):
        if key not in self.dict:
            return [0]
        self.dict[key].grow(count)
        return [1]

    def op_keys(self):
        return sum((self.word(self.key, key) for key in self.dict), [])

    def op_items(self):
        # a numba dictionary gives its keys as Python integers, and takes none from 2^63 on
        return sum((self.word(self.key, key) + self.word(self.val, self.dict[self.key(key)]) for key in self.dict), [])

    def op_push(self, val):
        self.list.append(val)

    def op_at(self, place):
        return self.word(self.val, self.list[place])

    def op_pick(self, place):
        return self.word(self.val, self.fetch(self.list, place))

    def op_set(self, place, val):
        self.list[place] = val

    def op_squeeze(self, place, val):
        self.list.insert(place, val)

    def op_popped(self, place):
        return self.word(self.val, self.list.pop(place))

    def op_list(self):
        return sum((self.word(self.val, val) for val in self.list), [])

    def op_sizes(self):
        return [len(self.dict), len(self.list)]


CUSTOM = {}


class Records(Obj):
    """records defined with the package's record helpers, read from Python and from compiled code"""

    def __init__(self, con):
        super().__init__(None)
        self.key = json.dumps(con["def"])
        self.fields = con["def"]
        self.dtype = self.define(con["def"]).dtype
        self.raw = bytearray(con["bytes"])
        self.recs = np.frombuffer(self.raw, dtype=self.dtype).view(np.recarray)

    def define(self, fields):
        from typing import Annotated
        from numba_pokemon_prngs.data import util

        if (key := ("record", json.dumps(fields))) in USER:
            return USER[key]
        kinds = {"B1": util.BOOL8, "U8": util.U8, "U16": util.U16, "U32": util.U32, "U64": util.U64, "F32": util.F32}
        notes = {}
        for k, field in enumerate(fields):
            if field["t"] == "REC":
                kind = self.define(field["in"])
            else:
                kind = kinds[field["t"]]
                if field["n"] and field["t"] == "U8" and len(field["n"]) == 1 and k % 2:
                    kind = util.unused_bytes(field["n"][0])
                else:
                    for length in reversed(field["n"]):
                        kind = util.dtype_array(kind, length)
                    if field["n"] and k % 3:
                        kind = Annotated[list, kind]
            notes[f"f{k + 1}"] = kind
        USER[key] = util.dtype_dataclass(type("Record", (), {"__annotations__": notes}))
        return USER[key]

    def leaf(self, f, g):
        field = self.fields[f - 1]
        return field if g == 0 else field["in"][g - 1]

    def code(self, op, f, g):
        if (key := (self.key, op, f, g)) in USER:
            return USER[key]
        from numba_pokemon_prngs.compilation import optional_jitclass, optional_njit, array_type, TypedList

        dims = "jkl"[: len(self.leaf(f, g)["n"])]
        args = "".join(f", {d}" for d in dims)
        path = f".f{f}" + (f".f{g}" if g else "") + (f"[{', '.join(dims)}]" if dims else "")
        names = {"TypedList": TypedList, "optional_jitclass": optional_jitclass, "optional_njit": optional_njit, "kind": array_type(self.dtype)}
        source = {
            "read": f"@optional_njit\ndef made(r, i{args}):\n    return r[i]{path}\n",
            "write": f"@optional_njit()\ndef made(r, i{args}, val):\n    r[i]{path} = val\n",
            "passed": f"@optional_njit\ndef made(r{args}):\n    return r{path}\n",
            "column": f"@optional_njit\ndef made(r{args}):\n    return r['f{f}']{'[:' + args + ']' if dims else ''}.copy()\n",
            "gather": f"@optional_njit\ndef made(r, least):\n    out = TypedList()\n    for x in r:\n        if x.f{f} >= least:\n            out.append(x)\n    return out\n",
            "held": f"@optional_jitclass\nclass made:\n    recs: kind\n    def __init__(self, recs):\n        self.recs = recs\n"
            f"    def read(self, i{args}):\n        return self.recs[i]{path}\n    def write(self, i{args}, val):\n        self.recs[i]{path} = val\n",
        }[op]
        exec(source, names)  # pylint: disable=exec-used
        USER[key] = names["made"]
        return USER[key]

    def value(self, val, f, g=0):
        kind = self.leaf(f, g)["t"]
        if kind == "F32":
            return bits32(val)
        if kind == "B1":
            return [int(val)] if isinstance(val, (bool, np.bool_)) else WRONG
        return enc(val, 2 if kind == "U64" else 1)

    def given(self, words, f, g):
        kind = self.leaf(f, g)["t"]
        if kind == "F32":
            return np.uint32(word(words)).view(np.float32)
        return {"B1": np.bool_, "U8": np.uint8, "U16": np.uint16, "U32": np.uint32, "U64": np.uint64}[kind](word(words))

    def call(self, op, args, npy):
        if op == "layout":
            return [self.dtype.itemsize] + [self.dtype.fields[n][1] for n in self.dtype.names]
        if op == "bytes":
            return list(self.raw)
        if op == "column":
            f, at = args[0][0], args[1]
            return sum((self.value(v, f) for v in self.code("column", f, 0)(self.recs, *at)), [])
        if op == "gather":
            f, least = args[0][0], args[1][0]
            found = self.code("gather", f, 0)(self.recs, self.given([least], f, 0))
            return sum((self.value(getattr(x, f"f{f}") if hasattr(x, f"f{f}") else x[f"f{f}"], f) for x in found), [])
        i, f, g, at = args[0][0], args[1][0], args[2][0], args[3]
        if op in ("set", "write", "hold"):
            val = self.given(args[4], f, g)
            if op == "write":
                self.code("write", f, g)(self.recs, i, *at, val)
            elif op == "hold":
                self.code("held", f, g)(self.recs).write(i, *at, val)
            else:
                rec = self.recs[i] if g == 0 else self.recs[i][f"f{f}"]
                name = f"f{g or f}"
                if at:
                    rec[name][tuple(at)] = val
                else:
                    rec[name] = val
            return []
        if op == "read":
            res = self.code("read", f, g)(self.recs, i, *at)
        elif op == "kept":
            res = self.code("held", f, g)(self.recs).read(i, *at)
        elif op == "passed":
            res = self.code("passed", f, g)(self.recs[i], *at)
        else:
            res = self.recs[i][f"f{f}"]
            res = res[f"f{g}"] if g else res
            res = res[tuple(at)] if at else res
        return self.value(res, f, g)


def prng_class(name):
    from numba_pokemon_prngs import lcrng, mersenne_twister, xorshift

    if name in LCG_NAMES:
        return getattr(lcrng, name)
    return {
        "MT": lambda: mersenne_twister.MersenneTwister,
        "SFMT": lambda: mersenne_twister.SIMDFastMersenneTwister,
        "TINY": lambda: mersenne_twister.TinyMersenneTwister,
        "XS": lambda: xorshift.Xorshift128,
        "XO": lambda: xorshift.Xoroshiro128PlusRejection,
        "XM": lambda: xorshift.SplitMixXoroshiro128Plus,
    }[name]()


LCG_NAMES = (
    "PokeRNGMod PokeRNGDiv PokeRNGRMod PokeRNGRDiv ARNG ARNGR XDRNG XDRNGR BWRNG BWRNGR"
).split()
WRAPPERS = {"MT": Mt, "SFMT": Sfmt, "TINY": Tiny, "XS": Xs, "XO": Xo, "XM": Xm}


DATA_KINDS = {"ENC3": Enc3, "FB": Reader, "TABLE8": Table8, "AREAS8": Areas8, "CHOOSE8": Chooser8, "PERSONAL": Personal, "GAMES": Games,
              "ENUM": Enumeration, "RECORD": Records}


def custom_lcg(kind, mult, add, reverse):
    """a class built with the generator-building decorators"""
    from numba_pokemon_prngs import lcrng

    key = (kind, mult, add, reverse)
    if key not in CUSTOM:
        if kind.startswith("C32"):
            dist = lcrng.LCRNG32RandomDistribution
            dist = {"C32": dist.NONE, "C32mod": dist.MODULO, "C32div": dist.RECIPROCAL_DIVISION}[kind]
            init, base = lcrng.lcrng32_init, lcrng.LCRNG32
        else:
            dist = lcrng.LCRNG64RandomDistribution
            dist = {"C64": dist.NONE, "C64ms": dist.MULTIPLICATION_SHIFT}[kind]
            init, base = lcrng.lcrng64_init, lcrng.LCRNG64

        class Custom(base):
            pass

        CUSTOM[key] = init(add=add, mult=mult, distribution=dist, reverse=bool(reverse))(Custom)
    return CUSTOM[key]


def build(con, args, npy):
    kind = con["k"]
    if kind == "UTIL":
        return Util()
    if kind == "RL":
        return RngList(con, args, npy)
    if kind == "SHA1":
        return Sha(con, args, npy)
    if kind in ("GEN3", "STATE3"):
        return (Gen3 if kind == "GEN3" else State3)(con, args, npy)
    if kind == "UTIL3":
        return Gen3Util()
    if kind == "CACHE":
        return CacheFiles()
    if kind == "TALLY":
        return Tally(con, args, npy)
    if kind == "FUNCTION":
        return Functions(None)
    if kind == "STORE":
        return Store(con)
    if kind in DATA_KINDS:
        return DATA_KINDS[kind](con)
    conv = Obj.convert(None, "new", args, npy)
    if kind in LCG_NAMES:
        made = Lcg(prng_class(kind), 2 if kind.startswith("BW") else 1, *conv)
        made.real_class = made.cls
        return made
    if kind.startswith("C32") or kind.startswith("C64"):
        cls = custom_lcg(kind, *[int(word(w)) for w in args[:3]])
        return Lcg(cls, 1 if kind.startswith("C32") else 2, *conv[3:])
    made = WRAPPERS[kind](prng_class(kind)(*conv))
    made.real_class = prng_class(kind)
    return made


def play(histories, out):
    for tid, history in histories:
        player = Player()
        for ev in history:
            err = None
            try:
                res, seen = player.step(ev)
            except Exception as exc:  # pylint: disable=broad-exception-caught
                res, seen, err = REFUSED, [], f"{type(exc).__name__}: {exc}"[:300]
            rec = {"o": ev["o"], "op": ev["op"], "a": ev["a"], "r": res, "s": seen}
            if "c" in ev:
                rec["c"] = ev["c"]
            if err:
                rec["x"] = err
            out.write(json.dumps([tid, rec]) + "\n")
            if err and not ev.get("may", 0):
                break
        out.flush()


if __name__ == "__main__":
    with _open(sys.argv[1], encoding="utf-8") as stimuli, _open(sys.argv[2], "w", encoding="utf-8") as sink:
        play(json.load(stimuli), sink)
        sink.write("[-1, null]\n")
