"""C21: every column of an input file, and every setting, becomes the attribute
it is documented to be, converted once, in the objects made from it."""
from lib.columns import Expr, Frame, at, atom, const, fn, same
from lib.inline import inline
from lib.prog import Program, short

cfg = lambda k: Expr(atom("cfg", k))
col = lambda k: Expr(atom("col", k))        # a number, or text, as written
icol = lambda k: Expr(atom("icol", k))      # a whole number
row = lambda r, f: Expr(atom("mem", r, f))

UNIT, SCALE = cfg("unit_time"), cfg("flow_scalar")
MILE, HOUR = 1600, 3600


class Attr(dict):
    """attributes by name"""

    def __getattr__(self, k):
        return self[k]


def speeds(c, i):
    return c(i) * MILE / HOUR


# ------------------------------------------------------------ what a row says
LINK = Attr(ID=icol(0), length=col(2) * MILE, ffs=speeds(col, 3), flow=col(4) / HOUR, hold=col(5) / MILE,
            lanes=icol(6))
LINK2 = Attr(LINK, ffs_car=LINK.ffs, flow_car=LINK.flow, hold_car=LINK.hold, ffs_truck=speeds(col, 7),
             flow_truck=col(8) / HOUR, hold_truck=col(9) / MILE, convert=col(10))
RB = "td_link_attribute_row_biclass"
TD = Attr(ID=Expr(atom("old", "ID")), length=row(RB, "length"), lanes=row(RB, "Lane"), ffs=Expr(atom("old", "ffs")),
          ffs_car=row(RB, "FFS_car"), flow_car=row(RB, "Cap_car"), hold_car=row(RB, "RHOJ_car"),
          ffs_truck=row(RB, "FFS_truck"), flow_truck=row(RB, "Cap_truck"), hold_truck=row(RB, "RHOJ_truck"),
          convert=Expr(atom("old", "convert")), toll=row(RB, "toll"))
NODE = Attr(ID=icol(0))
NODE2 = Attr(ID=icol(0), convert=col(2))
OD = Attr(ID=icol(0), node=icol(1))
STOP = Attr(ID=icol(0), link=icol(1), where=col(2) * MILE)
STOPV = Attr(ID=icol(0), physical=icol(1), route=icol(2))
LOT = Attr(ID=icol(0), node=icol(1), price=col(2), surge=col(3), stay=col(4) / UNIT, capacity=col(5))
WALK = Attr(ID=icol(0), head=icol(1), tail=icol(2), htype=col(3), ttype=col(4), kind=col(5), time=col(6))
BUS = Attr(ID=icol(0), head=icol(1), tail=icol(2), length=col(3) * MILE, time=col(4) * HOUR, route=icol(5))


def cells(A, ffs):
    return A.length / (ffs * UNIT)


def last(A):
    """jam density the last cell of a single-class link is given"""
    std = A.ffs * UNIT
    n = fn("floor", A.length / std)
    return [(A.length - (m - 1) * std) / std * A.hold for m in (n, Expr(const(1)))] + [A.hold]


def wave(flow, hold, ffs):
    return flow / (hold - flow / ffs)


def rho(hold, w, ffs):
    return hold * (w / (ffs + w))


ONE = lambda A: 1 / (UNIT * SCALE)
LANE1 = lambda A: 1 / (UNIT * SCALE * A.lanes)

# ------------------------------------------- what the members of an object are
# record: {member: [value, other values a bound may give]}
D, DM = "MNM_Dlink", "MNM_Dlink_Multiclass"
CTM, PQ, LQ, LTM = D + "_Ctm", D + "_Pq", D + "_Lq", D + "_Ltm"
CM, PM, LM = CTM + "_Multiclass", PQ + "_Multiclass", LQ + "_Multiclass"
CELL, CELLM = CTM + "::Ctm_Cell", CM + "::Ctm_Cell_Multiclass"
SPEC = {
    D: {"m_link_ID": [lambda A: A.ID],
        "m_ffs": [lambda A: A.ffs],
        "m_number_of_lane": [lambda A: A.lanes],
        "m_length": [lambda A: A.length, lambda A: A.ffs_car * UNIT]},
    CTM: {"m_lane_hold_cap": [lambda A: A.hold], "m_lane_flow_cap": [lambda A: A.flow],
          "m_flow_scalar": [lambda A: SCALE],
          "m_num_cells": [lambda A: fn("floor", cells(A, A.ffs)), lambda A: Expr(const(1))],
          "m_wave_ratio": [lambda A: wave(A.flow, A.hold, A.ffs) / A.ffs],
          "m_last_wave_ratio": [lambda A: wave(A.flow, A.hold, A.ffs) / A.ffs] +
                               [lambda A, j=j: wave(A.flow, last(A)[j], A.ffs) / A.ffs for j in (0, 1)]},
    CELL: {"m_flow_cap": [lambda A: A.lanes * A.flow * UNIT, lambda A: 1 / SCALE],
           "m_hold_cap": [lambda A: A.lanes * A.ffs * UNIT * A.hold] +
                         [lambda A, j=j: A.lanes * A.ffs * UNIT * last(A)[j] for j in (0, 1)],
           "m_flow_scalar": [lambda A: SCALE],
           "m_wave_ratio": [lambda A: wave(A.flow, A.hold, A.ffs) / A.ffs] +
                           [lambda A, j=j: wave(A.flow, last(A)[j], A.ffs) / A.ffs for j in (0, 1)]},
    PQ: {"m_lane_hold_cap": [lambda A: A.hold], "m_lane_flow_cap": [lambda A: A.flow],
         "m_flow_scalar": [lambda A: SCALE], "m_unit_time": [lambda A: UNIT],
         "m_hold_cap": [lambda A: A.hold * A.lanes * A.length],
         "m_max_stamp": [lambda A: fn("round_down_time", cells(A, A.ffs))]},
    LQ: {"m_lane_hold_cap": [lambda A: A.hold], "m_lane_flow_cap": [lambda A: A.flow, LANE1],
         "m_flow_scalar": [lambda A: SCALE], "m_unit_time": [lambda A: UNIT],
         "m_hold_cap": [lambda A: A.hold * A.lanes * A.length],
         "m_C": [lambda A: A.flow * A.lanes, ONE],
         "m_k_c": [lambda A: A.flow * A.lanes / A.ffs]},
    LTM: {"m_lane_hold_cap": [lambda A: A.hold], "m_lane_flow_cap": [lambda A: A.flow, LANE1],
          "m_flow_scalar": [lambda A: SCALE], "m_unit_time": [lambda A: UNIT],
          "m_hold_cap": [lambda A: A.hold * A.lanes * A.length],
          "m_w": [lambda A: wave(A.flow, A.hold, A.ffs)]},
    DM: {"m_ffs_car": [lambda A: A.ffs_car], "m_ffs_truck": [lambda A: A.ffs_truck]},
    CM: {"m_unit_time": [lambda A: UNIT], "m_flow_scalar": [lambda A: SCALE],
         "m_veh_convert_factor": [lambda A: A.convert],
         "m_num_cells": [lambda A: fn("floor", cells(A, A.ffs_car)), lambda A: Expr(const(1))]},
    CELLM: {"m_unit_time": [lambda A: UNIT], "m_flow_scalar": [lambda A: SCALE],
            "m_cell_length": [lambda A: A.ffs_car * UNIT] +
                             [lambda A, n=n: A.length - (n(A) - 1) * A.ffs_car * UNIT
                              for n in (lambda A: fn("floor", cells(A, A.ffs_car)), lambda A: Expr(const(1)))],
            "m_rho_1_N": [lambda A: A.lanes * rho(A.hold_car, wave(A.flow_car, A.hold_car, A.ffs_car), A.ffs_truck)]},
    PM: {"m_unit_time": [lambda A: UNIT], "m_flow_scalar": [lambda A: SCALE],
         "m_veh_convert_factor": [lambda A: A.convert],
         "m_lane_hold_cap": [lambda A: A.hold_car], "m_lane_flow_cap": [lambda A: A.flow_car],
         "m_hold_cap": [lambda A: A.hold_car * A.lanes * A.length],
         "m_max_stamp": [lambda A: fn("round_down_time", cells(A, A.ffs_car))]},
    LM: {"m_unit_time": [lambda A: UNIT], "m_flow_scalar": [lambda A: SCALE],
         "m_veh_convert_factor": [lambda A: A.convert],
         "m_rho_1_N": [lambda A: A.lanes * rho(A.hold_car, wave(A.flow_car, A.hold_car, A.ffs_car), A.ffs_truck)]},
    "MNM_Dnode": {"m_node_ID": [lambda A: A.ID], "m_flow_scalar": [lambda A: SCALE]},
    "MNM_Dnode_Inout_Multiclass": {"m_veh_convert_factor": [lambda A: A.convert]},
    "MNM_DMOND_Multiclass": {"m_veh_convert_factor": [lambda A: A.convert]},
    "MNM_DMDND_Multiclass": {"m_veh_convert_factor": [lambda A: A.convert]},
    "MNM_Origin": {"m_Origin_ID": [lambda A: A.ID], "m_max_assign_interval": [lambda A: cfg("max_interval")],
                   "m_flow_scalar": [lambda A: SCALE], "m_frequency": [lambda A: cfg("assign_frq")]},
    "MNM_Destination": {"m_Dest_ID": [lambda A: A.ID]},
    "MNM_Busstop": {"m_busstop_ID": [lambda A: A.ID], "m_link_ID": [lambda A: A.link],
                    "m_link_loc": [lambda A: A.where], "m_flow_scalar": [lambda A: SCALE]},
    "MNM_Parking_Lot": {"m_ID": [lambda A: A.ID], "m_node_ID": [lambda A: A.node], "m_base_price": [lambda A: A.price],
                        "m_price_surge_coeff": [lambda A: A.surge], "m_avg_parking_time": [lambda A: A.stay],
                        "m_capacity": [lambda A: A.capacity], "m_unit_time": [lambda A: UNIT]},
    "MNM_Transit_Link": {"m_link_ID": [lambda A: A.ID], "m_from_node_ID": [lambda A: A.head],
                         "m_to_node_ID": [lambda A: A.tail], "m_fftt": [lambda A: A.time],
                         "m_unit_time": [lambda A: UNIT]},
    "MNM_Walking_Link": {"m_from_node_type": [lambda A: A.htype], "m_to_node_type": [lambda A: A.ttype],
                         "m_walking_type": [lambda A: A.kind],
                         "m_max_stamp": [lambda A: fn("round_down_time", A.time / UNIT)]},
}
for c in ("car", "truck"):
    g = lambda A, a, c=c: A[a + "_" + c]
    w = lambda A, g=g: wave(g(A, "flow"), g(A, "hold"), g(A, "ffs"))
    SPEC[CM].update({
        "m_lane_flow_cap_" + c: [lambda A, g=g: g(A, "flow"), LANE1],
        "m_lane_hold_cap_" + c: [lambda A, g=g: g(A, "hold")],
        "m_lane_critical_density_" + c: [lambda A, g=g: g(A, "flow") / g(A, "ffs")],
        "m_wave_speed_" + c: [w]})
    SPEC[CELLM].update({
        "m_hold_cap_" + c: [lambda A, g=g: A.lanes * g(A, "hold")],
        "m_critical_density_" + c: [lambda A, g=g: A.lanes * (g(A, "flow") / g(A, "ffs"))],
        "m_flow_cap_" + c: [lambda A, g=g: A.lanes * g(A, "flow"), ONE],
        "m_ffs_" + c: [lambda A, g=g: g(A, "ffs")], "m_wave_speed_" + c: [w]})
    SPEC[LM].update({
        "m_k_j_" + c: [lambda A, g=g: A.lanes * g(A, "hold")],
        "m_C_" + c: [lambda A, g=g: A.lanes * g(A, "flow"), ONE],
        "m_k_C_" + c: [lambda A, g=g: A.lanes * (g(A, "flow") / g(A, "ffs"))],
        "m_w_" + c: [w]})
SPEC[CM]["m_lane_rho_1_N"] = [lambda A: rho(A.hold_car, wave(A.flow_car, A.hold_car, A.ffs_car), A.ffs_truck)]

# members a change of attributes leaves alone
STILL = {"m_unit_time", "m_flow_scalar", "m_veh_convert_factor", "m_link_ID", "m_ffs", "m_cell_length"}

# which row an object is made from
MADE = [(DM, LINK2), (D, LINK), (CELLM, None), (CELL, None), ("MNM_DMOND_Multiclass", NODE2),
        ("MNM_DMDND_Multiclass", NODE2), ("MNM_Dnode_Inout_Multiclass", NODE2), ("MNM_Dnode", NODE),
        ("MNM_Origin", OD), ("MNM_Destination", OD), ("MNM_Busstop_Physical", STOP), ("MNM_Parking_Lot", LOT),
        ("MNM_Walking_Link", WALK), ("MNM_Bus_Link", BUS)]

# members set from outside: (record, member): (value, object)
LOOKED = lambda f, k: fn(f, icol(k))
OUTSIDE = {
    ("MNM_Origin", "m_origin_node"): [LOOKED("get_node", 1)],
    ("MNM_Destination", "m_dest_node"): [LOOKED("get_node", 1)],
    ("MNM_Destination", "m_flow_scalar"): [SCALE],
    ("MNM_Bus_Link", "m_length"): [BUS.length], ("MNM_Bus_Link", "m_route_ID"): [BUS.route],
    ("MNM_Bus_Link", "m_from_busstop"): [LOOKED("get_busstop", 1)],
    ("MNM_Bus_Link", "m_to_busstop"): [LOOKED("get_busstop", 2)],
    ("MNM_Busstop_Virtual", "m_route_ID"): [STOPV.route],
    ("MNM_Busstop_Virtual", "m_busstop_physical"): [LOOKED("get_busstop", 1)],
    ("MNM_Busstop_Virtual", "m_max_boarding_passengers_per_unit_time"):
        [fn("round", UNIT / cfg("boarding_time_per_passenger"))],
    ("MNM_Busstop_Virtual", "m_max_alighting_passengers_per_unit_time"):
        [fn("round", UNIT / cfg("alighting_time_per_passenger"))],
    ("MNM_Parking_Lot", "m_dest_node"): [LOOKED("get_node", 1)],
    ("td_link_attribute_row", "length"): [col(3) * MILE], ("td_link_attribute_row", "FFS"): [speeds(col, 4)],
    ("td_link_attribute_row", "Cap"): [col(5) / HOUR], ("td_link_attribute_row", "RHOJ"): [col(6) / MILE],
    ("td_link_attribute_row", "Lane"): [icol(7)], ("td_link_attribute_row", "toll"): [col(8)],
    (RB, "length"): [col(3) * MILE], (RB, "FFS_car"): [speeds(col, 4)], (RB, "Cap_car"): [col(5) / HOUR],
    (RB, "RHOJ_car"): [col(6) / MILE], (RB, "Lane"): [icol(7)], (RB, "FFS_truck"): [speeds(col, 8)],
    (RB, "Cap_truck"): [col(9) / HOUR], (RB, "RHOJ_truck"): [col(10) / MILE], (RB, "Convert_factor"): [col(11)],
    (RB, "toll"): [col(12)],
}
# objects that are told about the one made from the row
HOOKS = {("MNM_Busstop_Virtual", "m_bus_out_link"): LOOKED("get_busstop", 1),
         ("MNM_Busstop_Virtual", "m_bus_in_link"): LOOKED("get_busstop", 2)}
HOOKED = {"hook_up_origin": ("MNM_Origin", "origin"), "hook_up_destination": ("MNM_Destination", "destination")}
ROWS = {"td_link_attribute_row": "MNM_Link_Factory", RB: "MNM_Link_Factory_Multiclass"}
TOLL = {("MNM_Dlink", "m_toll"): col(1), (DM, "m_toll_car"): col(1), (DM, "m_toll_truck"): col(2)}
TOLLTD = {k: TD.toll for k in TOLL}

# texts that name a type: class of the object made
TYPES = {"PQ": "_Pq", "LQ": "_Lq", "CTM": "_Ctm", "LTM": "_Ltm", "FWJ": "_FWJ", "GRJ": "_GRJ", "DMOND": "MNM_DMOND",
         "DMDND": "MNM_DMDND"}

# settings of a simulation
MINUTE = {"m_assign_freq": 60 / UNIT,
          "m_total_assign_inter": cfg("max_interval") * (cfg("assign_frq") / (60 / UNIT))}
DTA = {"m_unit_time": "unit_time", "m_flow_scalar": "flow_scalar", "m_assign_freq": "assign_frq",
       "m_start_assign_interval": "start_assign_interval", "m_total_assign_inter": "max_interval",
       "m_init_demand_split": "init_demand_split"}


class Engine:
    def __init__(self, P, rep):
        self.P, self.rep = P, rep
        self.assume = {}
        self.stack = []             # (attributes, kind "new"/"td")
        self.classes = {}
        self.root = None
        self.bad = set()
        self.seen = {}              # reader: members set from outside

    # -------------------------------------------------------------- hooks
    def whole(self, x):
        if len(x[1]) == 1:
            a = next(iter(x[1]))
            if a[0] == "col" and x[0] == atom(*a)[0]:
                return atom("icol", a[1])
        return x

    def table(self, rec, name):
        return SPEC.get(rec, {}).get(name)

    def spec(self, rec, name, fields):
        if not self.stack:
            return None
        t = self.table(rec, name)
        A, kind = self.stack[-1]
        if t is None or A is None:
            return None
        if name in fields or kind == "td" and name in STILL:
            return t[0](A).v
        return atom("old" if kind == "td" else "unset", name)

    def unset(self, frame, n, i):
        self.report("early:%s:%s" % (short(n["r"]), n["n"]), frame.F.loc(i),
                    "%s of a %s is used before it is given its value" % (n["n"], short(n["r"])))

    def attrs(self, rec):
        for r, A in MADE:
            if self.P.isa(rec, r):
                return A if A is not None else self.stack[-1][0] if self.stack else None
        return None

    def begin(self, frame, H, e):
        A = self.attrs(H.rec)
        if A is None:
            return False
        self.stack.append((A, "new"))
        self.rep.count("objects")
        t = self.assume.get(("col", 1))
        if t is not None and not self.unsure(frame):
            self.classes.setdefault((self.root, t), {}).setdefault(H.rec, frame.F.loc(e))
        elif t is not None:
            self.classes.setdefault((self.root, t), {}).setdefault(None, frame.F.loc(e))
        return {}

    def unsure(self, frame):
        return getattr(frame, "undecided", False)

    def end(self, frame, H, e, obj):
        A, kind = self.stack.pop()
        self.missing(H.rec, obj, "made at " + frame.F.loc(e), frame.F.loc(e), False)

    def missing(self, cls, obj, how, loc, td):
        for r, t in SPEC.items():
            if not self.P.isa(cls, r):
                continue
            for f in t:
                if td and f in STILL:
                    continue
                self.rep.count("members")
                if f not in obj:
                    self.report("unset:%s:%s" % (short(cls), f), loc,
                                "%s of a %s %s is never given its value" % (f, short(cls), how))

    def enter(self, frame, n, e):
        P = self.P
        b = P.ext[n["f"]]["base"]
        if frame.onthis(n):
            return n["f"] in P.funcs and not b.startswith("~") and frame.depth < 6 and \
                self.stack and not b.startswith("install_") and frame.F.rec is not None
        return b.startswith("make_") or b == "modify_property"

    def open(self, frame, H, n, e):
        if H.base == "modify_property":
            A = TD if not self.stack else self.stack[-1][0]
            if not self.stack:
                got = frame.value(n["o"])
                if any(("fn", "at") in x[1] and not any(a[0] == "mem" and a[-1] == "first" for a in x[1])
                       for x in got):
                    self.report("apply:%s" % short(frame.F.key), frame.F.loc(e),
                                "attributes are applied to another link than the one they are kept for")
            self.stack.append((A, "td"))
            return {}
        return {}

    def close(self, frame, H, n, e, obj):
        if H.base == "modify_property":
            self.stack.pop()
            if H.rec in (CM, CELLM, LM, DM):
                self.missing(H.rec, obj, "changed at " + frame.F.loc(e), H.loc(), True)

    def report(self, key, where, text):
        if (key, where) not in self.bad:
            self.bad.add((key, where))
            self.rep.violation(key, where, text)

    def show(self, val):
        out = []
        for x in sorted(val, key=repr)[:3]:
            out.append("from " + (", ".join(sorted(
                "column %d" % a[1] if a[0] in ("col", "icol") else "%s" % (a[-1],) for a in x[1]
                if a[0] not in ("fn",)))[:120] or "the constant %s" % float(x[0][0])))
        return "; or ".join(out)

    def stored(self, frame, rec, name, val, e, own, base, clamp):
        F = frame.F
        if own and self.stack and self.stack[-1][0] is not None:
            t = self.table(rec, name)
            if t is None:
                return
            A, kind = self.stack[-1]
            want = [v for v in (self.safe(f, A) for f in t) if v is not None]
            self.compare(frame, rec, name, val, want, e, clamp)
        elif not own and (rec, name) in HOOKS and not self.stack and base >= 0 and reader(F):
            self.rep.count("stores")
            self.seen.setdefault(self.root, set()).add((rec, name))
            side = "m_from_busstop" if name == "m_bus_out_link" else "m_to_busstop"
            if not all(same(x, HOOKS[(rec, name)].v) or any(a[0] == "mem" and a[-1] == side for a in x[1])
                       for x in frame.value(base)):
                self.report("hook:%s" % name, F.loc(e), "%s of another bus stop than the one the row names is set"
                            % name)
        elif not own and (rec, name) in OUTSIDE and not self.stack:
            self.seen.setdefault(self.root, set()).add((rec, name))
            self.compare(frame, rec, name, val, [x.v for x in OUTSIDE[(rec, name)]], e, 0)
            if rec in ROWS and base >= 0:
                want = at(at(row(ROWS[rec], "m_td_link_attribute_table").v, icol(0).v), icol(1).v)
                got = frame.value(base)
                if any(("fn", "at") in x[1] and not same(x, want) for x in got):
                    self.report("row:%s" % rec, F.loc(e), "an attribute is kept for another link or time than columns "
                                "1 and 0 say in %s" % short(F.key))
        elif not own and (rec, name) in TOLL and not self.stack:
            td = any(a[0] == "mem" and a[1] == RB for x in val for a in x[1])
            w = TOLLTD if td else TOLL
            self.compare(frame, rec, name, val, [w[(rec, name)].v], e, 0)
            if not td and base >= 0:
                b = frame.value(base)
                g = LOOKED("get_link", 0).v
                if not all(same(x, g) for x in b):
                    self.report("toll:%s" % name, F.loc(e), "%s is set on another link than the one column 0 names"
                                % name)
        elif own and frame.depth == 0 and P_dta(self.P, rec) and name in DTA:
            multi = self.P.isa(F.rec, "MNM_Dta_Multiclass") or self.P.isa(F.rec, "MNM_Dta_Multimodal")
            w = MINUTE[name] if multi and name in MINUTE else cfg(DTA[name])
            self.compare(frame, rec, name, val, [w.v], e, 0)

    @staticmethod
    def safe(f, A):
        try:
            return f(A).v
        except KeyError:
            return None

    def compare(self, frame, rec, name, val, want, e, clamp):
        F = frame.F
        self.rep.count("stores")
        for x in val:
            if not any(a[0] not in ("enum", "n") for a in x[1]) and x[0][0] in (0, -1) and not clamp:
                continue                # a placeholder
            up = not x[1]
            if clamp and (clamp == 1) != up:
                self.report("bound:%s:%s" % (short(rec), name), F.loc(e),
                            "%s of a %s is bounded from the wrong side in %s" % (name, short(rec), short(F.key)))
                continue
            if clamp and up or any(same(x, w) for w in want):
                continue
            self.report("value:%s:%s" % (short(rec), name), F.loc(e),
                        "%s of a %s is set in %s to a value that is not its attribute (computed %s)"
                        % (name, short(rec), short(F.key), self.show([x])))


def reader(F):
    return F.rec is not None and "IO" in F.rec


def P_dta(P, rec):
    return P.isa(rec, "MNM_Dta")


def wanted(P, H):
    """small helpers of the readers"""
    if H.islambda:
        return True
    return H.file.startswith("src/") and not H.base.startswith(("make_", "build_", "get_", "read_", "hook_")) and \
        H.kind != "ctor" and not H.virtual and len(H.nodes) < 400 and \
        (H.rec is None or "IO" in H.rec) and H.base not in ("split", "trim", "next_line")


def reads_columns(P, F):
    f = Frame(type("E", (), {"P": P, "assume": {}})(), F, {}, {}, 0)
    for _, e, n in F.all_elements():
        if n["k"] == "call" and n.get("f") and P.ext[n["f"]]["base"] in ("operator[]", "at") and \
                f.column(e) is not None:
            return True
    return False


def run(rep, tier):
    P = Program.load()
    E = Engine(P, rep)
    rep.rule("every value stored in a member of a link, node, origin, destination, bus stop, parking lot or transit "
             "link while it is made from a row, or while the attributes of a time step are applied, is the member's "
             "function of the row's columns and the settings (exact arithmetic at fixed points), bounded only from "
             "the documented side; every such member gets a value; the text of a type column makes an object of "
             "that type")
    roots = 0
    texts = {}
    for F in sorted(P.funcs.values(), key=lambda f: f.key):
        if not F.file.startswith("src/") or not F.blocks or F.rec is None or "IO" not in F.rec:
            continue
        N = inline(P, F, lambda n, e, H: wanted(P, H))
        N.key = F.key
        if not reads_columns(P, N):
            continue
        roots += 1
        rep.count("readers")
        E.root = F.key
        lits = sorted({n["val"] for n in N.nodes if n["k"] == "str"} & set(TYPES))
        for t in lits or [None]:
            E.assume = {("col", 1): t} if t else {}
            Frame(E, N, {}, {}, 0).run()
        texts[F.key] = (N, lits)
    E.assume = {}
    for key, got in sorted(E.seen.items()):
        F = P.funcs[key]
        recs = {r for r, _ in got}
        if not any(n["k"] == "call" and n.get("f") and P.ext[n["f"]]["base"].startswith("make_") for n in F.nodes) \
                and not recs & set(ROWS):
            continue                    # only connects what was made elsewhere
        for r, m in sorted(set(OUTSIDE) | set(HOOKS)):
            if r == "MNM_Busstop_Virtual" and ((r, m) in HOOKS) != ("MNM_Bus_Link" in recs):
                continue
            if (r in recs or (r, m) in HOOKS) and (r, m) not in got:
                E.report("unset:%s:%s" % (short(r), m), F.loc(), "%s does not set %s of the %s it makes"
                         % (short(key), m, short(r)))
    for key, (N, lits) in texts.items():
        for t in lits:
            c = E.classes.get((key, t), {})
            rep.count("type texts")
            for cls, loc in c.items():
                if cls in (None, CELL, CELLM):
                    continue
                if TYPES[t] not in cls.replace("MNM_Dnode", "_Dnode"):
                    E.report("type:%s:%s" % (short(key), t), loc,
                             "a row of type %s makes a %s" % (t, short(cls)))
            if not [x for x in c if x not in (CELL, CELLM)] and len(c) == 0:
                E.report("type:%s:%s" % (short(key), t), N.loc(), "a row of type %s makes nothing" % t)
    # attributes that change over time, and settings
    for F in sorted(P.funcs.values(), key=lambda f: f.key):
        if not F.file.startswith("src/") or not F.blocks:
            continue
        if F.base == "update_link_attribute" and F.rec and P.isa(F.rec, "MNM_Link_Factory"):
            E.root = F.key
            Frame(E, F, {}, {}, 0).run()
            rep.count("updaters")
        if F.rec and P_dta(P, F.rec) and F.kind != "ctor" and any(
                n["k"] == "mem" and n["n"] in DTA for n in F.nodes) and any(
                n["k"] == "str" and n.get("val") in DTA.values() for n in F.nodes):
            E.root = F.key
            Frame(E, F, {}, {}, 0).run()
            rep.count("settings readers")
    rep.require("readers", roots, 6)
